// Reductions, broadcasts, selections, trees, message barriers and two-sided messages (C18, C19, C20).
#include "h.h"
#include "util.h"
#include <limits.h>
#include <sys/mman.h>
#include <math.h>
#include <float.h>
struct MOp { int kind; int grp; int scope; int type; int op; long n; int root; int form; uint64_t contrib; int where; };
struct Msg { int src, dst, tag; long len; int id; int any; };
struct MPlan { int focus; std::vector<std::vector<int>> groups; std::vector<MOp> ops; std::vector<std::vector<Msg>> batches; long maxb; };
struct MShm { int entered[64]; };
enum { MK_GOP, MK_BCAST, MK_SEL, MK_TREE, MK_BARRIER, MK_BATCH, MK_HUGE };
static const int MT_SZ[5] = {4, 8, 8, 4, 8};
static const char *MOPS[] = {"+", "*", "min", "max", "absmin", "absmax", "or", "land", "&&", "lor", "||", "band", "&", "bor", "|"};
static long inval(uint64_t seed, int k, int rank, long i, int op, int type) {
  uint64_t h = sim_mix(sim_mix(seed, 77 + k), (uint64_t)rank * 1000003 + i), o = sim_mix(seed, 9177 + k); long v = (long)(h >> 20); bool wide = type == 1 || type == 2, fp = type >= 3;
  // magnitudes vary per operation, so that arithmetic in a narrower type or through another type shows
  int sh = fp || o % 3 == 0 ? 0 : wide ? (int[]){20, 31, 32, 40}[o / 3 % 4] : 10; auto big = [&](long x) { long noise = sh ? (long)((h >> 5) & ((1ull << sh) - 1)) : 0; return (long)((uint64_t)x << sh) + noise; };
  switch (op) {
    case 0: v = (v % 200001) - 100000; if (type == 3) v = v % 2000; v = big(v); break;
    case 1: { int m = (int)(v % 7); v = m == 0 ? 2 : m == 1 ? -2 : m == 2 ? 3 : m == 3 ? -1 : m == 6 && v % 5 == 0 && type < 3 ? 0 : 1; if (rank == 0 && sh) v = (long)((uint64_t)v << (wide ? 40 : 12)); break; }
    case 2: case 3: case 4: case 5: v = (v % 20001) - 10000; if (h % 11 == 0) v = -v; v = big(v);
      if (!fp && h % 97 == 0) { bool mn = op < 4 && (h >> 9) % 2; v = wide ? (mn ? LONG_MIN : LONG_MAX) : (mn ? (long)INT_MIN : (long)INT_MAX); if (op >= 4 && (h >> 9) % 2) v = -v; } break;
    case 7: case 8: case 9: case 10: v = v % 3 == 0 ? 0 : (v % 1000) - 500; if (sh) v = (long)((uint64_t)v << sh); break;
    default: v = type == 0 ? (long)(int)h : (long)h; }
  return v;
}
static int fscale(uint64_t seed, int k, int op, int type) { return op == 1 || type < 3 ? 0 : (int[]){0, 0, -3, -9, 21, 40, -40}[sim_mix(seed, 551 + k) % 7]; }   // exact powers of two
static long redop(int op, long a, long b) { switch (op) { case 0: return a + b; case 1: return a * b; case 2: return std::min(a, b); case 3: return std::max(a, b); case 4: return std::min(std::labs(a), std::labs(b)); case 5: return std::max(std::labs(a), std::labs(b)); case 6: case 13: case 14: return a | b; case 7: case 8: return a && b; case 9: case 10: return a || b; default: return a & b; } }
static void st(int type, void *p, long v, int e = 0) { switch (type) { case 0: { int x = (int)v; memcpy(p, &x, 4); break; } case 1: memcpy(p, &v, 8); break; case 2: { long long x = v; memcpy(p, &x, 8); break; } case 3: { float x = ldexpf((float)v, e); memcpy(p, &x, 4); break; } default: { double x = ldexp((double)v, e); memcpy(p, &x, 8); } } }
static long count_pick(Rng &r, bool th) { int k = (int)r.below(20); return k < 2 ? 0 : k < 6 ? 1 : k < 16 ? 1 + (long)r.below(20) : k < 19 ? 1 + (long)r.below(400) : 1 + (long)r.below(r.chance(6) ? 300000 : th ? 20000 : 4000); }
static int mtag(Rng &r) { int k = (int)r.below(4); return k < 2 ? (int)r.below(30000) : k == 2 ? (int)r.below(1 << 20) : (int)r.below(1 << 29); }
static void msg_plan(Case &c, int focus) {
  cfg_sim(c, 1, 6, 14); cfg_env(c, 1); auto P = std::make_shared<MPlan>(); c.plan = P; Rng &r = c.rng; MPlan &p = *P; p.focus = focus; p.maxb = 8;
  if (r.chance(40)) env_set(c, "ARMCI_SHR_BUF_METHOD", "COPY");
  if (c.getenv("ARMCI_NONCOLLECTIVE_GROUPS").empty() == false && r.chance(50)) env_set(c, "ARMCI_NONCOLLECTIVE_GROUPS", "0");
  bool nonc = c.on("ARMCI_NONCOLLECTIVE_GROUPS");
  p.groups.push_back(range_vec(c.n)); for (int i = (int)r.below(4); i > 0; i--) { auto s = subset(r, c.n); if (nonc) std::sort(s.begin(), s.end()); p.groups.push_back(s); }
  int nops = 2 + (int)r.below(c.thorough ? 16 : 7);
  for (int k = 0; k < nops; k++) {
    MOp o{}; o.kind = focus == 0 ? (r.chance(90) ? MK_GOP : MK_BARRIER) : focus == 1 ? (int)r.pick({MK_BCAST, MK_BCAST, MK_SEL, MK_SEL, MK_TREE, MK_BARRIER}) : (int)r.pick({MK_BATCH, MK_BATCH, MK_BATCH, MK_BARRIER, MK_BCAST});
    o.grp = r.chance(60) ? 0 : (int)r.below(p.groups.size()); o.scope = r.pick({SCOPE_ALL, SCOPE_ALL, SCOPE_ALL, SCOPE_NODE, SCOPE_MASTERS}); o.where = (int)r.below(3); auto &m = p.groups[o.grp]; o.root = m[r.below(m.size())]; o.form = (int)r.below(4);
    if (o.kind == MK_GOP) { o.type = (int)r.below(5); o.op = o.type >= 3 ? (int)r.below(6) : r.chance(70) ? (int)r.below(7) : (int)r.below(15); o.n = count_pick(r, c.thorough); p.maxb = std::max(p.maxb, o.n * MT_SZ[o.type]); }
    if (o.kind == MK_BCAST) { o.n = count_pick(r, c.thorough) * (r.chance(20) ? 8 : 1); p.maxb = std::max(p.maxb, o.n); }
    if (o.kind == MK_SEL) { o.grp = 0; o.type = (int)r.below(5); o.n = MT_SZ[o.type] + (r.chance(70) ? (long)r.below(60) : (long)r.below(c.thorough ? 60000 : 9000)); o.op = (int)r.below(2); o.contrib = r.next(); uint64_t mask = (1ull << c.n) - 1; if (r.chance(50)) o.contrib |= mask; if (r.chance(20)) o.contrib = 1ull << r.below(c.n); if (!(o.contrib & mask)) o.contrib |= 1ull << r.below(c.n); p.maxb = std::max(p.maxb, o.n); }
    if (o.kind == MK_BATCH) { std::vector<Msg> b; int t = (int)r.below(4), nm = 1 + (int)r.below(c.thorough ? 30 : 12);
      if (t == 0 && c.n > 1) { int root = (int)r.below(c.n), tag = mtag(r); int tag2 = r.chance(60) ? tag ^ 1 << (int)r.below(29) : tag; for (int i = 0; i < nm; i++) { int s = (int)r.below(c.n); if (s == root) continue; b.push_back({s, root, r.chance(50) ? tag : tag2, count_pick(r, c.thorough), 0, 1}); } std::stable_sort(b.begin(), b.end(), [&](const Msg &x, const Msg &y) { return (x.tag == tag2) < (y.tag == tag2); }); for (size_t i = 0; i < b.size(); i++) b[i].id = (int)i; }        // fan-in, any source
      else { int nt = 1 + (int)r.below(3); int tags[3] = {mtag(r), (int)r.below(200), 100}; if (r.chance(50)) { int hi = 15 + (int)r.below(14); tags[1] = tags[0] ^ 1 << hi; tags[2] = r.chance(50) ? tags[0] ^ 1 << (15 + (int)r.below(14)) : tags[0] ^ 1 << (int)r.below(15); } for (int i = 0; i < nm; i++) { if (c.n < 2) break; int s = (int)r.below(c.n), d = (int)r.below(c.n); if (s == d) continue; if (r.chance(40) && !b.empty()) { s = b.back().src; d = b.back().dst; } b.push_back({s, d, tags[r.below(nt)], count_pick(r, c.thorough), (int)b.size(), 0}); } }
      for (auto &x : b) p.maxb = std::max(p.maxb, x.len + 64); o.root = (int)p.batches.size(); p.batches.push_back(b); }
    p.ops.push_back(o);
  }
  if (focus == 0 && r.chance(1) && r.chance(35)) { MOp o{}; o.kind = MK_HUGE; o.grp = c.n == 1 ? (int)r.below(p.groups.size()) : 0; o.type = (int)r.below(5); o.op = o.type >= 3 ? (int)r.below(6) : (int)r.below(15); o.form = (int)r.below(2); o.scope = c.n == 1 && r.chance(50) ? SCOPE_ALL : SCOPE_NODE; o.contrib = r.next(); p.ops.push_back(o); c.sim.preempt = 0; }
  if (p.maxb > 1 << 20) c.sim.slab = 32ull << 20; c.shm_size = sizeof(MShm); c.desc = fmt("%d ranks, %zu groups, %d collective or message steps, largest buffer %ld", c.n, p.groups.size(), nops, p.maxb);
}
static void msg_run(int me, Case &c) {
  MPlan &p = *plan_of<MPlan>(c); MShm *S = (MShm *)c.shm; Rng r{sim_mix(c.seed, 1000 + me)}; armci_start(c);
  UserTraffic ut; { const Msg *u = nullptr; for (auto &b : p.batches) if (!u && !b.empty()) u = &b[sim_mix(c.seed, 5) % b.size()]; if (u) ut.start(c.seed, me, c.n, MPI_COMM_WORLD, u->src, u->dst, u->tag); else ut.start(c.seed, me, c.n, MPI_COMM_WORLD); }
  size_t ng = p.groups.size(); std::vector<ARMCI_Group> G(ng); std::vector<int> slot(ng, -1); bool nonc = c.on("ARMCI_NONCOLLECTIVE_GROUPS");
  for (size_t g = 0; g < ng; g++) { auto &m = p.groups[g]; for (size_t i = 0; i < m.size(); i++) if (m[i] == me) slot[g] = (int)i; if (!g) ARMCI_Group_get_world(&G[0]); else if (!nonc || slot[g] >= 0 || r.chance(50)) ARMCI_Group_create((int)m.size(), m.data(), &G[g]); else slot[g] = -2; }
  long SL = p.maxb + 128; std::vector<void *> base(c.n); CHECK(ARMCI_Malloc(base.data(), SL) == 0, "malloc-rc", "ARMCI_Malloc failed"); memset(base[me], 0x5B, SL); ARMCI_Barrier();
  std::vector<uint8_t> priv(SL); std::vector<uint8_t> model;
  for (size_t k = 0; k < p.ops.size(); k++) {
    MOp &o = p.ops[k]; auto &m = p.groups[o.grp]; bool mem = slot[o.grp] >= 0;
    // buffers: private with guards, or in the caller's own slice of global memory
    bool glob = o.where == 2 || (o.where == 1 && r.chance(50)); uint8_t *area = glob ? (uint8_t *)base[me] : priv.data(); memset(area, 0x5B, SL); int off = 16 + (int)(o.kind == MK_GOP || o.kind == MK_SEL ? 8 * r.below(4) : r.below(32)); uint8_t *b = area + off;
    auto verify = [&](const char *what, const std::vector<uint8_t> &exp) { long es = (long)exp.size(); auto fill = [&](long f, long t) { return t <= f || (area[f] == 0x5B && !memcmp(area + f, area + f + 1, t - f - 1)); }; if (!memcmp(area + off, exp.data(), es) && fill(0, off) && fill(off + es, SL)) { cnt(CN_EVAL, SL); cnt(CN_BYTES, SL); return; } for (long i = 0; i < SL; i++) { uint8_t e = i >= off && i < off + (long)exp.size() ? exp[i - off] : 0x5B; CHECK(area[i] == e, i >= off && i < off + (long)exp.size() ? "collective-result" : "collective-stray", "%s: byte %ld (relative to a buffer of %zu bytes, %s) is %02x, expected %02x at process %d", what, i - off, exp.size(), glob ? "global" : "private", area[i], e, me); } cnt(CN_BYTES, SL); };
    if (o.kind == MK_GOP) {
      int sz = MT_SZ[o.type], fe = fscale(c.seed, (int)k, o.op, o.type); std::vector<uint8_t> exp(o.n * sz); bool node = false; int form = o.form; int scope = SCOPE_ALL; bool world = o.grp == 0;
      if (form >= 2) { scope = o.scope; node = scope == SCOPE_NODE; }
      for (long i = 0; i < o.n; i++) { st(o.type, b + i * sz, inval(c.seed, (int)k, me, i, o.op, o.type), fe); }
      if (!mem) { memcpy(exp.data(), b, exp.size()); verify("non-participant", exp); memset(area, 0x5B, SL); continue; }
      const std::vector<int> part = node ? std::vector<int>{me} : m; for (long i = 0; i < o.n; i++) { long v = 0; bool first = true; for (int q : part) { long x = inval(c.seed, (int)k, q, i, o.op, o.type); v = first ? x : redop(o.op, v, x); first = false; } if (o.op == 4 || o.op == 5) v = std::labs(v); if (part.size() == 1 && o.op >= 7 && o.op <= 10) { memcpy(&exp[i * sz], b + i * sz, sz); continue; } st(o.type, &exp[i * sz], v, fe); }
      char *op = (char *)MOPS[o.op]; int n = (int)o.n; cnt(CN_COLL); feat(fh({80, (uint64_t)o.type, (uint64_t)o.op, (uint64_t)form, (uint64_t)scope, (uint64_t)m.size(), (uint64_t)glob, (uint64_t)std::min(o.n, 3L)}));
      if (form >= 2) { if (world && form == 2) armci_msg_gop_scope(scope, b, n, op, o.type); else armci_msg_group_gop_scope(scope, b, n, op, o.type, &G[o.grp]); }
      else if (world && form == 0) switch (o.type) { case 0: armci_msg_igop((int *)b, n, op); break; case 1: armci_msg_lgop((long *)b, n, op); break; case 2: armci_msg_llgop((long long *)b, n, op); break; case 3: armci_msg_fgop((float *)b, n, op); break; default: armci_msg_dgop((double *)b, n, op); }
      else switch (o.type) { case 0: armci_msg_group_igop((int *)b, n, op, &G[o.grp]); break; case 1: armci_msg_group_lgop((long *)b, n, op, &G[o.grp]); break; case 2: armci_msg_group_llgop((long long *)b, n, op, &G[o.grp]); break; case 3: armci_msg_group_fgop((float *)b, n, op, &G[o.grp]); break; default: armci_msg_group_dgop((double *)b, n, op, &G[o.grp]); }
      if (o.op == 4 || o.op == 5) for (long i = 0; i < o.n; i++) { if (o.type == 3) { float f; memcpy(&f, b + 4 * i, 4); if (f == 0) memset(b + 4 * i, 0, 4); } if (o.type == 4) { double f; memcpy(&f, b + 8 * i, 8); if (f == 0) memset(b + 8 * i, 0, 8); } }   // -0 equals 0
      verify(fmt("reduction '%s' type %d count %d form %d scope %d group of %zu", op, o.type, n, form, scope, m.size()).c_str(), exp);
    } else if (o.kind == MK_BCAST) {
      auto val = [&](int q, long i) { return (uint8_t)(sim_mix(c.seed + k, (uint64_t)q * 7919 + i) >> 11); }; std::vector<uint8_t> exp(o.n); for (long i = 0; i < o.n; i++) b[i] = val(me, i);
      int form = o.grp ? 3 : o.form; bool node = form >= 2 && o.scope == SCOPE_NODE; for (long i = 0; i < o.n; i++) exp[i] = val(mem && !node ? o.root : me, i);
      if (mem) { cnt(CN_COLL); feat(fh({81, (uint64_t)form, (uint64_t)(form >= 2 ? o.scope : 0), (uint64_t)(me == o.root), (uint64_t)m.size(), (uint64_t)glob, (uint64_t)std::min(o.n, 3L)})); switch (form) { case 0: armci_msg_bcast(b, (int)o.n, o.root); break; case 1: armci_msg_brdcst(b, (int)o.n, o.root); break; case 2: armci_msg_bcast_scope(o.scope, b, (int)o.n, o.root); break; default: armci_msg_group_bcast_scope(o.scope, b, (int)o.n, o.root, &G[o.grp]); } }
      verify(fmt("broadcast of %ld bytes from %d, form %d, scope %d", o.n, o.root, form, form >= 2 ? o.scope : 0).c_str(), exp);
    } else if (o.kind == MK_SEL) {
      std::vector<long> keys(c.n); for (int i = 0; i < c.n; i++) keys[i] = i * 3 - 7; Rng q{sim_mix(c.seed, 31 * k + 5)}; shuffle(q, keys); if (q.chance(30)) for (auto &x : keys) x = -x; bool ext = q.chance(35); int klo = (int)(std::min_element(keys.begin(), keys.end()) - keys.begin()), khi = (int)(std::max_element(keys.begin(), keys.end()) - keys.begin());
      long mul = o.type == 1 || o.type == 2 ? (long[]){1, 1L << 20, 1L << 33, 1L << 40}[q.below(4)] : o.type == 0 && q.chance(40) ? 1 << 14 : 1; int ke = o.type < 3 ? 0 : (int)q.pick({0, -4, -14, 30}); auto rec = [&](int w) { std::vector<uint8_t> v(o.n); for (long i = 0; i < o.n; i++) v[i] = (uint8_t)(sim_mix(c.seed + k, (uint64_t)w * 104729 + i) >> 9); st(o.type, v.data(), (keys[w] * 1000 + w) * mul, ke);
        if (ext && (w == klo || w == khi)) { bool lo = w == klo; if (o.type < 3) st(o.type, v.data(), o.type == 0 ? (lo ? (long)INT_MIN : (long)INT_MAX) : lo ? LONG_MIN : LONG_MAX); else if (o.type == 3) { float x = lo ? -FLT_MAX : FLT_MAX; memcpy(v.data(), &x, 4); } else { double x = lo ? -DBL_MAX : DBL_MAX; memcpy(v.data(), &x, 8); } }
        return v; };   // the outermost keys are sometimes the extremes of the type
      bool node = o.form >= 2 && o.scope == SCOPE_NODE; int con = node ? 1 : (int)(o.contrib >> me & 1); static const int CV[] = {1, 1, 1, 2, 5, -1, 256, 1 << 30}; int cv = CV[sim_mix(o.contrib, me) & 7]; auto mine = rec(me); memcpy(b, mine.data(), o.n); int win = me; if (!node) { win = -1; for (int w = 0; w < c.n; w++) if (o.contrib >> w & 1) if (win < 0 || (o.op ? keys[w] > keys[win] : keys[w] < keys[win])) win = w; }
      cnt(CN_COLL); feat(fh({82, (uint64_t)o.type, (uint64_t)o.op, (uint64_t)con, (uint64_t)(win == me), (uint64_t)glob, (uint64_t)(o.n > 200), (uint64_t)c.n}));
      if (o.form >= 2) armci_msg_sel_scope(o.scope, b, (int)o.n, (char *)(o.op ? "max" : "min"), o.type, con * cv); else armci_msg_sel(b, (int)o.n, (char *)(o.op ? "max" : "min"), o.type, con * cv);
      verify(fmt("selection '%s' type %d record of %ld bytes, contributors %llx, winner %d", o.op ? "max" : "min", o.type, o.n, (unsigned long long)(o.contrib & ((1ull << c.n) - 1)), win).c_str(), rec(win));
    } else if (o.kind == MK_TREE) {
      int root = -9, up = -9, l = -9, rr = -9; armci_msg_bintree(o.scope, &root, &up, &l, &rr); int inf[4] = {root, up, l, rr}; std::vector<int> all(4 * c.n); for (int i = 0; i < c.n; i++) { int t[4]; memcpy(t, inf, sizeof t); armci_msg_bcast(t, 16, i); memcpy(&all[4 * i], t, 16); }
      cnt(CN_COLL); if (o.scope == SCOPE_NODE) { CHECK(root == me && up == -1 && l == -1 && rr == -1, "tree", "node-scope tree at %d: root %d up %d left %d right %d", me, root, up, l, rr); }
      else { int rt = all[0]; CHECK(rt >= 0 && rt < c.n && all[4 * rt + 1] == -1, "tree", "tree root %d has parent %d", rt, all[4 * rt + 1]); std::vector<int> par(c.n, -1), depth(c.n, -1); for (int i = 0; i < c.n; i++) { CHECK(all[4 * i] == rt, "tree", "processes disagree about the root"); for (int s = 2; s < 4; s++) { int ch = all[4 * i + s]; if (ch == -1) continue; CHECK(ch >= 0 && ch < c.n && par[ch] == -1 && ch != rt, "tree", "process %d is child of two parents, or the root", ch); par[ch] = i; CHECK(all[4 * ch + 1] == i, "tree", "child %d of %d says its parent is %d", ch, i, all[4 * ch + 1]); } CHECK(all[4 * i + 2] == -1 || all[4 * i + 2] != all[4 * i + 3], "tree", "same child twice"); }
        for (int i = 0; i < c.n; i++) { int q = i, s = 0; while (q != rt && s <= c.n) { q = all[4 * q + 1]; s++; CHECK(q >= 0 && q < c.n, "tree", "process %d is not connected to the root", i); } CHECK(s <= c.n, "tree", "cycle in the tree at %d", i); if (i != rt) CHECK(par[i] == all[4 * i + 1], "tree", "parent of %d does not list it as a child", i); } }
      verify("tree query", {});
    } else if (o.kind == MK_HUGE) {
      // more than 2 GB (sometimes 4 GB) of elements, reduced over one process
      if (me == (int)(o.contrib % c.n)) {
        int sz = MT_SZ[o.type]; long n = ((1l << (sz == 8 && r.chance(30) ? 32 : 31)) / sz) + (long)r.below(1 << 20); uint8_t *v = (uint8_t *)sim_alias_map(n * sz, SIM_ALIAS_SEG); auto val = [&](long i) { return (long)(i % 2000) - 900; };
        for (long i = 0; i < (long)SIM_ALIAS_SEG; i += 512) st(o.type, v + i, val(i / 512)); char *op = (char *)MOPS[o.op]; cnt(CN_COLL); feat(fh({86, (uint64_t)o.type, (uint64_t)o.op, (uint64_t)(n >> 29)}));
        if (o.form) armci_msg_group_gop_scope(o.scope, v, (int)n, op, o.type, &G[o.grp]); else armci_msg_gop_scope(o.scope, v, (int)n, op, o.type);
        for (long i = 0; i < (long)SIM_ALIAS_SEG; i += 512) { uint8_t e[8]; long x = val(i / 512); st(o.type, e, o.op == 4 || o.op == 5 ? std::labs(x) : x); if (o.op >= 7 && o.op <= 10) continue; bool zero = x == 0 && o.type >= 3 && (sz == 4 ? *(float *)(v + i) == 0 : *(double *)(v + i) == 0) /* either zero */; CHECK(zero || !memcmp(e, v + i, sz), "huge-reduction", "reduction '%s' of %ld elements of %d bytes over one process: element at byte %ld is wrong", op, n, sz, i); }
        munmap(v, n * sz); }
    } else if (o.kind == MK_BARRIER) {
      if (mem && k < 60) { sim_yield(); __atomic_fetch_add(&S->entered[k], 1, __ATOMIC_SEQ_CST); cnt(CN_COLL); if (o.grp == 0 && o.form < 2) armci_msg_barrier(); else armci_msg_group_barrier(&G[o.grp]); CHECK(S->entered[k] == (int)m.size(), "barrier-early", "message barrier %zu left by %d when only %d of %zu participants had entered", k, me, S->entered[k], m.size()); }
      verify("message barrier", {});
    } else {
      auto &B = p.batches[o.root]; auto val = [&](const Msg &x, long i) { return (uint8_t)(sim_mix(c.seed + k, (uint64_t)x.id * 15485863 + i) >> 13); }; std::map<int, int> lastany; std::vector<char> got(B.size(), 0);
      for (auto &x : B) {
        if (x.src == me) { for (long i = 0; i < x.len; i++) b[i] = val(x, i); armci_msg_snd(x.tag, b, (int)x.len, x.dst); std::vector<uint8_t> e(x.len); for (long i = 0; i < x.len; i++) e[i] = val(x, i); verify("sent buffer", e); memset(area, 0x5B, SL); cnt(CN_MSG); }
        if (x.dst == me) { long cap = x.any ? SL - 64 : x.len + (r.chance(50) ? (long)r.below(30) : 0); int len = -7, *lp = r.chance(85) ? &len : nullptr; int src = x.src; if (x.any) { src = armci_msg_rcvany(x.tag, b, (int)cap, lp); } else armci_msg_rcv(x.tag, b, (int)cap, lp, x.src); cnt(CN_MSG); feat(fh({83, (uint64_t)x.any, (uint64_t)(cap > x.len), (uint64_t)glob, (uint64_t)std::min(x.len, 2L), (uint64_t)(lp != nullptr)}));
          const Msg *y = &x; if (x.any) { y = nullptr; CHECK(src >= 0 && src < c.n && src != me, "msg-source", "any-source receive reports source %d", src); for (auto &z : B) if (z.src == src && z.dst == me && z.tag == x.tag && !got[z.id]) { y = &z; break; } CHECK(y != nullptr, "msg-source", "any-source receive with tag %d reports source %d, which has no undelivered message with that tag", x.tag, src); }
          got[y->id] = 1; if (lp) CHECK(len == y->len, "msg-length", "received length %d of a message of %ld bytes from %d tag %d", len, y->len, src, x.tag);
          std::vector<uint8_t> e(y->len); for (long i = 0; i < y->len; i++) e[i] = val(*y, i); verify(fmt("message %d from %d to %d tag %d length %ld", y->id, y->src, y->dst, y->tag, y->len).c_str(), e); memset(area, 0x5B, SL); }
      }
    }
    if (glob) memset(area, 0x5B, SL);
  }
  for (int q = 0; q < SL; q++) CHECK(((uint8_t *)base[me])[q] == 0x5B, "collective-stray", "byte %d of the slice changed", q);
  ARMCI_Barrier(); ARMCI_Free(base[me]); for (size_t g = ng; g-- > 1;) if (slot[g] != -2) ARMCI_Group_free(&G[g]); ut.finish(); armci_stop(c);
}
static ScnReg r_gop("GOP", [](Case &c) { msg_plan(c, 0); }, msg_run), r_bc("COLL", [](Case &c) { msg_plan(c, 1); }, msg_run), r_ts("MSG", [](Case &c) { msg_plan(c, 2); }, msg_run);
