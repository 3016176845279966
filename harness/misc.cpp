// Overlap checks (C28), strided pack and unpack (C31).
#include "h.h"
#include "util.h"
#include <functional>
extern "C" {
__attribute__((weak)) int ARMCII_Iov_check_overlap(void **ptrs, int count, int size);
__attribute__((weak)) int ARMCII_Iov_check_same_allocation(void **ptrs, int count, int proc);
__attribute__((weak)) int ctree_insert(void **root, uint8_t *lo, uint8_t *hi);
__attribute__((weak)) void *ctree_locate(void *root, uint8_t *lo, uint8_t *hi);
__attribute__((weak)) void ctree_destroy(void **root);
}
// ---------------------------------------------------------------- overlap and same-allocation decisions
static std::vector<long> seg_list(Rng &r, int cnt, int size, int &shape) {     // start offsets, possibly overlapping
  std::vector<long> o; long pos = 0; shape = (int)r.below(7); int slack = (int)r.pick({0, 0, 1, 2, 7, 64}); int pov = (int)r.pick({0, 0, 0, 1, 5});
  for (int i = 0; i < cnt; i++) { long g = slack ? (long)r.below(slack + 1) : 0; if (i && (int)r.below(100) < pov) g = -(long)(1 + r.below(size)); pos += g; if (pos < 0) pos = 0; o.push_back(pos); pos += size; }
  if (shape == 1) std::reverse(o.begin(), o.end()); else if (shape == 2) shuffle(r, o); else if (shape == 3) { std::vector<long> z; for (size_t i = 0, j = o.size(); i < j;) { z.push_back(o[i++]); if (i < j) z.push_back(o[--j]); } o = z; } else if (shape == 4) { std::vector<long> z; for (size_t i = o.size() / 2, j = o.size() / 2; ;) { bool any = false; if (j < o.size()) { z.push_back(o[j++]); any = true; } if (i > 0) { z.push_back(o[--i]); any = true; } if (!any) break; } o = z; }
  else if (shape == 5) { size_t k = r.below(o.size()); std::rotate(o.begin(), o.begin() + k, o.end()); } else if (shape == 6 && cnt > 1) o[r.below(cnt)] = o[r.below(cnt)];
  return o;
}
static bool brute_overlap(const std::vector<long> &o, int size) { std::vector<long> s = o; std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); i++) if (s[i] - s[i - 1] < size) return true; return false; }
struct OvlPlan { bool checks; int lists; };
static void ovl_plan(Case &c) { cfg_sim(c, 1, 3); c.sim.alias = (int)c.rng.below(3); cfg_env(c, 1); auto P = std::make_shared<OvlPlan>(); P->checks = !c.rng.chance(10); env_set(c, "ARMCI_IOV_CHECKS", P->checks ? "1" : "0"); if (c.on("ARMCI_DEBUG_ALLOC")) env_set(c, "ARMCI_DEBUG_ALLOC", "0"); P->lists = 60; c.plan = P; c.desc = fmt("%d ranks, %d lists, checks %d", c.n, P->lists, P->checks); }
static void ovl_run(int me, Case &c) {
  OvlPlan &p = *plan_of<OvlPlan>(c); Rng r{sim_mix(c.seed, 77 + me)}; Rng sh{sim_mix(c.seed, 76)}; armci_start(c); std::vector<std::vector<void *>> al; std::vector<std::vector<long>> sz;
  int na = 1 + (int)sh.below(5); for (int i = 0; i < na; i++) { al.push_back(std::vector<void *>(c.n)); std::vector<long> z; for (int q = 0; q < c.n; q++) z.push_back(16 + 8 * (long)sh.below(30)); sz.push_back(z); CHECK(ARMCI_Malloc(al[i].data(), z[me]) == 0, "rc", "malloc"); }
  SimCensus s0; sim_census(&s0); std::vector<uint8_t> buf(1 << 16);
  for (int k = 0; k < p.lists; k++) {
    if (ARMCII_Iov_check_overlap) {
      int cnt_ = 1 + (int)(r.chance(20) ? r.below(c.thorough ? 700 : 250) : r.below(12)), size = r.chance(20) ? 1 : 1 + (int)r.below(r.chance(50) ? 8 : 100), shape; std::vector<long> o = seg_list(r, cnt_, size, shape); std::vector<void *> v; for (long x : o) v.push_back(buf.data() + x % (1 << 15)); o.clear(); for (void *q : v) o.push_back((uint8_t *)q - buf.data());
      int got = ARMCII_Iov_check_overlap(v.data(), cnt_, size), exp = p.checks && brute_overlap(o, size); std::string d; for (size_t i = 0; i < o.size() && i < 24; i++) d += fmt(" %ld", o[i]);
      CHECK(!!got == !!exp, exp ? "overlap-missed" : "overlap-invented", "%d segments of %d bytes (%s) at%s%s: overlap reported %d, really %d", cnt_, size, fmt("order %d", shape).c_str(), d.c_str(), o.size() > 24 ? " ..." : "", got, exp); for (size_t i = 0; i < o.size(); i++) CHECK(v[i] == buf.data() + o[i], "list-modified", "the segment list was modified");
      feat(fh({120, (uint64_t)std::min(cnt_, 40), (uint64_t)shape, (uint64_t)exp, (uint64_t)(size > 8)}));
    }
    if (ARMCII_Iov_check_same_allocation && r.chance(40)) {
      int proc = (int)r.below(c.n), m = 1 + (int)r.below(6); int a0 = (int)r.below(na); int mode = (int)r.below(4); bool loc = mode == 0; std::vector<void *> v; bool same = true; int first = -2;
      for (int i = 0; i < m; i++) { int a = r.chance(mode == 3 ? 60 : 15) ? (int)r.below(na) : a0; bool priv = loc ? !r.chance(10) : r.chance(4); if (priv) v.push_back(buf.data() + r.below(1000)); else { long z = sz[a][proc]; v.push_back((uint8_t *)al[a][proc] + (r.chance(20) ? z - 1 : r.chance(20) ? 0 : (long)r.below(z))); } int id = priv ? -1 : a; if (first == -2) first = id; else if (id != first) same = false; }
      int got = ARMCII_Iov_check_same_allocation(v.data(), m, proc), exp = p.checks ? same : 1; CHECK(!!got == !!exp, exp ? "span-invented" : "span-missed", "%d pointers at process %d (first in %d): same allocation reported %d, really %d", m, proc, first, got, exp); feat(fh({121, (uint64_t)m, (uint64_t)exp, (uint64_t)loc}));
    }
  }
  // the conflict tree itself, with ranges of mixed sizes, against a sorted map
  if (ctree_insert && ctree_locate && ctree_destroy) for (int k = 0; k < 12; k++) {
    void *root = nullptr; std::map<long, long> m; int n = 1 + (int)(r.chance(15) ? r.below(c.thorough ? 900 : 300) : r.below(30)), dense = (int)r.below(4), big = 1 + (int)r.below(r.chance(40) ? 4 : 200); long pos = dense == 0 ? 0 : 1 << 14;
    auto hits = [&](long lo, long hi) { auto it = m.upper_bound(hi); if (it == m.begin()) return false; --it; return it->second >= lo; };
    for (int i = 0; i < n; i++) { long len = 1 + (long)r.below(big), lo; 
      if (dense == 0) { lo = pos; pos += len + (long)r.below(3); } else if (dense == 1) { pos -= len + (long)r.below(3); lo = std::max(0L, pos); } else if (dense == 2 || m.empty()) lo = (long)r.below(1 << 15); else { auto it = m.lower_bound((long)r.below(1 << 15)); if (it == m.end()) --it; long w[6] = {it->first - len, it->first - len + 1, it->second, it->second + 1, it->first, it->second - len + 1}; lo = std::max(0L, w[r.below(6)]); }
      if (lo > (1 << 16) - 300) continue; long hi = lo + len - 1; bool e = hits(lo, hi); if (r.chance(50)) { void *q = ctree_locate(root, buf.data() + lo, buf.data() + hi); CHECK((q != nullptr) == e, e ? "overlap-missed" : "overlap-invented", "conflict tree of %zu ranges: looking up [%ld, %ld] found %s", m.size(), lo, hi, q ? "a range that does not share a byte with it" : "nothing"); }
      int got = ctree_insert(&root, buf.data() + lo, buf.data() + hi); CHECK(!!got == e, e ? "overlap-missed" : "overlap-invented", "conflict tree of %zu ranges: inserting [%ld, %ld] reported %d, really %d", m.size(), lo, hi, got, e); if (!e) m[lo] = hi; }
    for (int i = 0; i < 20; i++) { long lo = (long)r.below((1 << 16) - 300), hi = lo + (long)r.below(300); if (!m.empty() && r.chance(70)) { auto it = m.lower_bound(lo); if (it == m.end()) --it; lo = r.chance(50) ? it->first - (long)r.below(3) : it->second - (long)r.below(3); lo = std::max(0L, lo); hi = r.chance(50) ? std::max(lo, it->second) : lo + (long)r.below(300); } bool e = hits(lo, hi); void *q = ctree_locate(root, buf.data() + lo, buf.data() + hi); CHECK((q != nullptr) == e, e ? "overlap-missed" : "overlap-invented", "conflict tree of %zu ranges: looking up [%ld, %ld] found %s", m.size(), lo, hi, q ? "a range that does not share a byte with it" : "nothing"); }
    feat(fh({122, (uint64_t)dense, (uint64_t)(m.size() > 20), (uint64_t)(big > 4)})); ctree_destroy(&root); CHECK(root == nullptr, "check-leak", "destroying a conflict tree left its root set");
  }
  SimCensus s1; sim_census(&s1); CHECK(s0.heap == s1.heap, "check-leak", "the checks kept %ld heap blocks", s1.heap - s0.heap);
  ARMCI_Barrier(); for (auto &a : al) ARMCI_Free(a[me]); armci_stop(c);
}
static ScnReg r_ovl("OVERLAP", ovl_plan, ovl_run);
// ---------------------------------------------------------------- pack / unpack (C31)
struct PkPlan { int rounds; };
static void pk_plan(Case &c) { cfg_sim(c, 1, 2); cfg_env(c, 1); auto P = std::make_shared<PkPlan>(); P->rounds = c.thorough ? 60 : 25; c.plan = P; c.desc = fmt("%d ranks, %d patches", c.n, P->rounds); }
static void pk_run(int me, Case &c) {
  PkPlan &p = *plan_of<PkPlan>(c); Rng r{sim_mix(c.seed, 900 + me)}; armci_start(c); std::vector<void *> g(c.n); const long GZ = 1 << 16; CHECK(ARMCI_Malloc(g.data(), GZ) == 0, "rc", "malloc"); SimCensus s0; sim_census(&s0);
  for (int k = 0; k < p.rounds; k++) {
    int L = (int)r.pick({0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 13}); int ct[17], st[16]; memset(st, 0x55, sizeof st); ct[0] = 1 + (int)r.below(r.chance(30) ? 64 : 9); long ext = ct[0], tot = ct[0]; if (L == 0 && r.chance(20)) ct[0] = 0, ext = tot = 0;
    for (int l = 0; l < L; l++) { int dense = (int)r.below(4); long prev = l ? (long)st[l - 1] * ct[l] : ct[0]; (void)dense; ct[l + 1] = 1 + (int)(L > 7 ? r.below(2) * r.below(2) : r.below(tot > 2000 ? 2 : 4)); long s = r.chance(60) ? std::max(ext, prev) : ext; if (r.chance(60)) s += (long)r.below(l < 2 ? 9 : 3); if (s < 1) s = 1; if (s * (ct[l + 1] - 1) + ext > 50000) ct[l + 1] = 1; st[l] = (int)s; ext = s * (ct[l + 1] - 1) + ext; tot *= ct[l + 1]; }
    if (L && r.chance(20)) { int z = 1 + (int)r.below(L); (void)z; }
    // strides need not grow with the level: permute levels (segments stay disjoint)
    if (L >= 2 && r.chance(30)) { int a = (int)r.below(L), b = (int)r.below(L); std::swap(st[a], st[b]); std::swap(ct[a + 1], ct[b + 1]); }
    bool global = r.chance(25), gpack = !global && r.chance(15); std::vector<uint8_t> priv(ext + 128), ref; uint8_t *base = global ? (uint8_t *)g[me] + 64 + (long)r.below(GZ - ext - 128) : priv.data() + 64 - r.below(8);
    long span = ext; for (long i = -32; i < span + 32; i++) if (global || (base + i >= priv.data() && base + i < priv.data() + priv.size())) base[i] = (uint8_t)r.next();
    std::vector<long> off; std::function<void(int, long)> rec = [&](int l, long o) { if (l < 0) { off.push_back(o); return; } for (int i = 0; i < ct[l + 1]; i++) rec(l - 1, o + (long)i * st[l]); }; rec(L - 1, 0);
    int ct2[17], st2[16]; memcpy(ct2, ct, sizeof ct); memcpy(st2, st, sizeof st);
    int sk = (int)r.below(8); std::vector<uint8_t> pb(tot + 64 + 8, 0x5A); uint8_t *pk = gpack ? (uint8_t *)g[me] + 32 + sk : pb.data() + 32 + sk; if (gpack && tot + 128 > GZ) { gpack = false; pk = pb.data() + 32 + sk; } for (long i = -16; i < tot + 16; i++) pk[i] = 0x5A;
    std::vector<uint8_t> img(base - 16, base + span + 16);
    armci_write_strided(base, L, st, ct, (char *)pk); cnt(CN_DIRECT); cnt(CN_BYTES, tot);
    for (long i = -16; i < 0; i++) CHECK(pk[i] == 0x5A, "pack-spill", "pack wrote before the packed buffer"); for (long i = tot; i < tot + 16; i++) CHECK(pk[i] == 0x5A, "pack-spill", "pack wrote %ld bytes beyond the packed buffer of %ld", i - tot + 1, tot);
    for (size_t s = 0; s < off.size(); s++) for (int b = 0; b < ct[0]; b++) CHECK(pk[s * ct[0] + b] == img[16 + off[s] + b], "pack-data", "packed byte %zu of segment %zu of %zu: %d, patch has %d (levels %d)", (size_t)b, s, off.size(), pk[s * ct[0] + b], img[16 + off[s] + b], L);
    CHECK(!memcmp(img.data(), base - 16, img.size()), "pack-source", "packing modified the patch"); CHECK(!memcmp(ct, ct2, sizeof ct) && !memcmp(st, st2, sizeof st), "args", "counts or strides were modified");
    // local copies behave like memmove, whatever the overlap
    { std::vector<uint8_t> cb(r.chance(20) ? 5000 : 200), cr; for (auto &x : cb) x = (uint8_t)r.next(); cr = cb; long sz = (long)r.below(cb.size() / 2 + 1), so = (long)r.below(cb.size() - sz + 1), dz = r.chance(50) ? std::min((long)cb.size() - sz, std::max(0L, so + (long)r.below(33) - 16)) : (long)r.below(cb.size() - sz + 1); ARMCI_Copy(cb.data() + so, cb.data() + dz, (int)sz); memmove(cr.data() + dz, cr.data() + so, sz); CHECK(cb == cr, "local-copy", "a local copy of %ld bytes from offset %ld to %ld gives wrong bytes", sz, so, dz); }
    // unpack different bytes
    std::vector<uint8_t> nw(tot); for (long i = 0; i < tot; i++) nw[i] = pk[i] = (uint8_t)r.next(); ref = img; for (size_t s = 0; s < off.size(); s++) for (int b = 0; b < ct[0]; b++) ref[16 + off[s] + b] = nw[s * ct[0] + b];
    armci_read_strided(base, L, st, ct, (char *)pk); for (size_t i = 0; i < ref.size(); i++) CHECK(base[(long)i - 16] == ref[i], "unpack-data", "byte %ld of the patch (extent %ld) is %d after unpacking, expected %d (levels %d)", (long)i - 16, span, base[(long)i - 16], ref[i], L);
    for (long i = 0; i < tot; i++) CHECK(pk[i] == nw[i], "unpack-source", "unpacking modified the packed buffer"); for (long i = tot; i < tot + 16; i++) CHECK(pk[i] == 0x5A, "unpack-source", "unpacking wrote to the packed buffer");
    // identity
    armci_write_strided(base, L, st, ct, (char *)pk); for (long i = 0; i < tot; i++) CHECK(pk[i] == nw[i], "round-trip", "packing after unpacking does not give the packed buffer back"); armci_read_strided(base, L, st, ct, (char *)pk); for (size_t i = 0; i < ref.size(); i++) CHECK(base[(long)i - 16] == ref[i], "round-trip", "pack followed by unpack is not the identity");
    feat(fh({122, (uint64_t)L, (uint64_t)off.size() % 64, (uint64_t)std::min(ct[0], 10), (uint64_t)global, (uint64_t)gpack}));
  }
  SimCensus s1; sim_census(&s1); CHECK(s0.heap == s1.heap, "pack-leak", "packing kept %ld heap blocks", s1.heap - s0.heap); ARMCI_Barrier(); ARMCI_Free(g[me]); armci_stop(c);
}
static ScnReg r_pk("PACK", pk_plan, pk_run);
