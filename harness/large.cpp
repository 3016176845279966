// Operations at far offsets of multi-gigabyte slices (FAR) and bulk transfers of up to megabytes (BULK): C01-C04, C06, C13, C31.
// One process at a time operates; each operation is compared byte by byte with a reference applied to a copy of the memory it may affect.
#include "h.h"
#include "util.h"
#include <complex>
#include <sys/mman.h>
#include <unistd.h>
struct LgPlan { bool far; std::vector<long> size; long lsize; int turns, ops; bool small_first, pack; int own; };
enum { K_PUT, K_GET, K_ACC };
static const int ACC_T[] = {ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP}; static const int ACC_S[] = {4, 8, 4, 8, 8, 16};
static void lg_plan(Case &c, bool far) {
  cfg_sim(c, 1, 3); if (c.n == 1 && c.rng.chance(70)) c.n = 2; cfg_env(c, c.rng.chance(60) ? 1 : 2); auto P = std::make_shared<LgPlan>(); c.plan = P; LgPlan &p = *P; Rng &r = c.rng; p.far = far; p.small_first = r.chance(40); p.pack = far && r.chance(3); p.own = 20; if (r.chance(far ? 10 : 25)) { p.own = 75; if (r.chance(75)) env_set(c, "ARMCI_SHR_BUF_METHOD", "COPY"); }
  c.sim.win_separate = 0; env_set(c, "ARMCI_DEBUG_ALLOC", "0"); c.sim.max_steps = 4000000;
  for (int i = 0; i < c.n; i++) p.size.push_back(far ? (r.chance(15) ? 4096 : (long)r.pick({(1l << 31) - 4096, (1l << 31) + 65536, 3000000000l, (1l << 32) + 131072, 5300000000l, 6500000000l}) + 8 * (long)r.below(100)) : 8 * (long)r.range(2000, c.thorough ? 1000000 : 300000));
  if (far && *std::max_element(p.size.begin(), p.size.end()) <= 4096) p.size[0] = 3000000000l;
  p.lsize = far ? 65536 : 4l << 20; p.turns = 1 + (int)r.below(2); p.ops = far ? 6 : 3; c.sim.slab = far ? 9ull << 30 : 64ull << 20; std::string s; for (long z : p.size) s += fmt(" %ld", z);
  c.desc = fmt("%d ranks, slices of%s bytes, %d turns of %d operations", c.n, s.c_str(), p.turns, p.ops);
}
struct Range { long off, len; };
struct Watch {      // byte ranges of one memory that an operation may affect, with their expected contents
  uint8_t *(*at)(void *, long); void *ctx; std::vector<Range> rg; std::vector<std::vector<uint8_t>> exp;
  void add(long off, long len, long size) { long e = std::min(off + len, size); off = std::max(off, 0l); if (e > off) rg.push_back({off, e - off}); }
  void freeze(uint8_t *b) { std::sort(rg.begin(), rg.end(), [](const Range &a, const Range &x) { return a.off < x.off; }); std::vector<Range> m; for (auto &q : rg) if (!m.empty() && q.off <= m.back().off + m.back().len) m.back().len = std::max(m.back().len, q.off + q.len - m.back().off); else m.push_back(q); rg = m; for (auto &q : rg) exp.emplace_back(b + q.off, b + q.off + q.len); }
  uint8_t *p(long off) { size_t lo = 0, hi = rg.size(); while (hi - lo > 1) { size_t k = (lo + hi) / 2; if (rg[k].off <= off) lo = k; else hi = k; } return exp[lo].data() + (off - rg[lo].off); }
  long diff(uint8_t *b) { for (size_t i = 0; i < rg.size(); i++) if (memcmp(b + rg[i].off, exp[i].data(), rg[i].len)) { for (long k = 0;; k++) if (b[rg[i].off + k] != exp[i][k]) return rg[i].off + k; } return -1; }
};
static long lg_place(Rng &r, long len, long size, bool far, int al) {
  long o; if (!far) o = r.chance(15) ? size - len : (long)r.below(size - len + 1);
  else { static const long B[] = {0, 1l << 31, 1l << 32, 3l << 31, 1l << 30}; int k = (int)r.below(9); o = k < 5 ? B[k] + (long)r.range(-600, 600) : k < 7 ? size - len - (r.chance(50) ? 0 : (long)r.below(100)) : (long)(r.next() % (uint64_t)(size - len + 1)); }
  o = std::max(0l, std::min(o, size - len)); return o / al * al;
}
template <class T> static void acc_n(uint8_t *d, const uint8_t *s, long n, T k) { for (long i = 0; i < n; i++) { T a, b; memcpy(&a, s + i * sizeof(T), sizeof(T)); memcpy(&b, d + i * sizeof(T), sizeof(T)); b += k * a; memcpy(d + i * sizeof(T), &b, sizeof(T)); } }
static void lg_small(Rng &r, int t, uint8_t *p, long n) { for (long i = 0; i < n; i++) { int a = (int)(r.next() % 31) - 15, b = (int)(r.next() % 31) - 15; switch (t) { case 0: ((int *)p)[i] = a; break; case 1: ((long *)p)[i] = a * 70001l; break; case 2: ((float *)p)[i] = a; break; case 3: ((double *)p)[i] = a; break; case 4: ((float *)p)[2 * i] = a; ((float *)p)[2 * i + 1] = b; break; case 5: ((double *)p)[2 * i] = a; ((double *)p)[2 * i + 1] = b; break; } } }
// Pack and unpack more than 2 GB: both sides are views of one small memory object mapped over and over.
static void lg_pack(Rng &r) {
  const long seg = 24l << 20; int n = 90 + (int)r.below(4); long tot = seg * n; uint8_t *v[2];
  for (int k = 0; k < 2; k++) { v[k] = (uint8_t *)mmap(nullptr, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); int fd = memfd_create("alias", 0); if (v[k] == MAP_FAILED || fd < 0 || ftruncate(fd, seg)) sim_fatal("HARNESS", "mmap", "no memory for an aliased buffer"); for (int i = 0; i < n; i++) if (mmap(v[k] + i * seg, seg, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) sim_fatal("HARNESS", "mmap", "no memory for an aliased buffer"); close(fd); }
  for (long i = 0; i < seg; i += 512) { *(long *)(v[0] + i) = i * 31 + 7; *(long *)(v[1] + i) = -1; }
  int st[2] = {(int)seg, 0}, ct[3] = {(int)seg, n, 1}, lv = 1; if (n % 2 == 0 && r.chance(50)) { lv = 2; ct[1] = n / 2; ct[2] = 2; st[1] = (int)(seg * (n / 2)); }
  if (r.chance(50)) { armci_write_strided(v[0], lv, st, ct, (char *)v[1]); for (long i = 0; i < seg; i += 512) CHECK(*(long *)(v[1] + i) == i * 31 + 7, "large-pack", "packing %d segments of %ld bytes: byte %ld of the packed data is wrong", n, seg, i); }
  else { armci_read_strided(v[1], lv, st, ct, (char *)v[0]); for (long i = 0; i < seg; i += 512) CHECK(*(long *)(v[1] + i) == i * 31 + 7, "large-unpack", "unpacking %d segments of %ld bytes: byte %ld is wrong", n, seg, i); }
  for (int k = 0; k < 2; k++) munmap(v[k], tot); feat(fh({182, (uint64_t)lv})); cnt(CN_READBACK);
}
static void lg_run(int me, Case &c) {
  LgPlan &p = *plan_of<LgPlan>(c); Rng r{sim_mix(c.seed, 8100 + me)}; armci_start(c); int n = c.n; std::vector<void *> big(n), loc(n), sm(n);
  if (p.small_first) CHECK(ARMCI_Malloc(sm.data(), 256) == 0, "malloc-rc", "ARMCI_Malloc failed"); CHECK(ARMCI_Malloc(big.data(), p.size[me]) == 0, "malloc-rc", "ARMCI_Malloc failed"); CHECK(ARMCI_Malloc(loc.data(), p.lsize) == 0, "malloc-rc", "ARMCI_Malloc failed"); ARMCI_Barrier(); if (p.pack && me == 0) lg_pack(r);
  for (int turn = 0; turn < p.turns; turn++) for (int who = 0; who < n; who++) {
    if (who == me) for (int op = 0; op < p.ops; op++) {
      int t = (int)r.below(n), kind = (int)r.below(3), form = (int)r.below(p.far ? 5 : 3), ty = (int)r.below(6); long SZ = p.size[t]; bool far = p.far && SZ > 100000; uint8_t *orc = (uint8_t *)sim_slab_of(c.rmap.empty() ? t : c.rmap[t], big[t]); CHECK(orc, "address", "the slice of rank %d is not at an address of its memory", t); uint8_t *rem = (uint8_t *)big[t];
      int es = kind == K_ACC ? ACC_S[ty] : (int)r.pick({1, 4, 8}); bool nb = r.chance(40), own = r.chance(p.own); long limit = own ? p.lsize : 1l << 33;
      std::vector<std::pair<long, long>> seg; std::vector<int> len; long lext = 0; int levels = 0, cntv[9] = {0}, rs[8], ls[8]; long rb = 0; bool lsparse = false; std::vector<int> dlen, dn;
      bool ok = false;
      for (int tries = 0; tries < 60 && !ok; tries++) {
        seg.clear(); len.clear(); dlen.clear(); dn.clear(); lext = 0;
        if (form == 0 || form == 3 || form == 4) { long l = form ? 8 : far || SZ <= 4096 ? es * (long)r.range(1, 1024 / es) : r.chance(50) ? (long)r.below(SZ + 1) / es * es : es * (long)r.range(60000 / es, 70000 / es); if (l <= 0 || l > SZ || l > limit) continue; rb = lg_place(r, l, SZ, far, form ? 8 : es); seg.push_back({0, rb}); len.push_back((int)l); lext = l; ok = true; }
        else if (form == 1) {
          levels = (int)r.range(1, 4); cntv[0] = es * (int)(far || SZ <= 4096 ? r.range(1, 48) : r.pick({1l, 8l, 40l, 700l, 9000l, 30000l})); long tot = 1; for (int i = 1; i <= levels; i++) { cntv[i] = (int)(far || SZ <= 4096 ? r.range(1, levels > 2 ? 3 : 5) : r.pick({1l, 2l, 3l, 7l, 33l, 150l})); tot *= cntv[i]; } if (tot > (c.thorough ? 3000 : 900)) continue;
          auto mk = [&](int *s, bool sparse, long room) { long prev = cntv[0]; bool mult = r.chance(60); for (int i = 0; i < levels; i++) { long k; if (sparse && (i == levels - 1 || r.chance(25))) { long maxs = std::min(cntv[i + 1] > 1 ? room / (cntv[i + 1] - 1) : room, (1l << 31) - 8); if (maxs < prev) return -1l; k = prev + (long)(r.next() % (uint64_t)(maxs - prev + 1)); if (r.chance(40)) k = std::max(prev, maxs - (long)r.below(1000)); } else k = prev + (r.chance(50) ? 0 : es * (long)r.below(5)); k = (k + es - 1) / es * es; if (mult && i) k = (k + s[i - 1] - 1) / s[i - 1] * s[i - 1]; if (k > (1l << 31) - 1) return -1l; s[i] = (int)k; prev = k * cntv[i + 1]; if (prev > room && i < levels - 1) return -1l; } long e = cntv[0]; for (int i = 0; i < levels; i++) e += (long)s[i] * (cntv[i + 1] - 1); return e; };
          long re = mk(rs, far, SZ); if (re < 0 || re > SZ) continue; lsparse = p.far && !own && r.chance(35); lext = mk(ls, lsparse, 5l << 30); if (lext < 0 || lext > limit) continue; rb = r.chance(20) ? (SZ - re) / es * es : (long)(r.next() % (uint64_t)(SZ - re + 1)) / es * es;
          std::vector<int> ix(levels, 0); for (;;) { long a = 0, b = 0; for (int i = 0; i < levels; i++) a += (long)ls[i] * ix[i], b += (long)rs[i] * ix[i]; seg.push_back({a, rb + b}); len.push_back(cntv[0]); int k = 0; while (k < levels && ++ix[k] == cntv[k + 1]) ix[k++] = 0; if (k == levels) break; } ok = true;
        } else {
          int nd = 1 + (int)r.below(2); std::vector<Range> used; for (int d = 0; d < nd; d++) { int l = es * (int)(far || SZ <= 4096 ? r.range(1, 32) : r.pick({1l, 3l, 16l, 500l, 20000l})), m = far || SZ <= 4096 ? 1 + (int)r.below(12) : (int)r.pick({2l, 20l, 255l, 257l, 600l}); if (l > SZ) continue; if ((long)l * m > SZ / 2) m = (int)std::max(1l, SZ / 2 / l / 2); bool grid = !far; long pos = grid ? (long)r.below(SZ - (long)l * m + 1) / es * es : 0; int got = 0; for (int i = 0; i < m; i++) { long o = grid ? pos + (long)i * l : lg_place(r, l, SZ, far, es); bool clash = false; for (auto &u : used) if (o < u.off + u.len && u.off < o + l) clash = true; if (clash) continue; if (!grid) used.push_back({o, l}); seg.push_back({lext, o}); len.push_back(l); lext += l + (r.chance(20) ? es : 0); got++; } if (grid) used.push_back({pos, (long)l * m}); if (got) { dlen.push_back(l); dn.push_back(got); } if (grid && r.chance(50)) for (int i = 0; i < got; i++) { size_t b = seg.size() - got; std::swap(seg[b + i].second, seg[b + r.below(got)].second); } }
          ok = !seg.empty() && lext <= limit;
        }
      }
      if (!ok) continue;
      if (form >= 3) kind = form == 3 ? (r.chance(50) ? K_PUT : K_GET) : 3;
      uint8_t *lb, *raw = nullptr; long rawlen = 0; if (own) lb = (uint8_t *)loc[me]; else { rawlen = lext + 8192; raw = (uint8_t *)mmap(nullptr, rawlen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (raw == MAP_FAILED) sim_fatal("HARNESS", "mmap", "no memory for a buffer of %ld bytes", lext); lb = raw + 4096; }
      static const long AL[] = {1l << 31, -(1l << 31), 1l << 32, -(1l << 32), 3l << 31, -(3l << 31)}; Watch R, L;
      for (size_t i = 0; i < seg.size(); i++) { auto &s = seg[i]; if (far) { R.add(s.second - 16, len[i] + 32, SZ); for (long a : AL) R.add(s.second + a - 16, len[i] + 32, SZ); if (form == 1) R.add((long)(int)(s.second - rb) + rb, len[i], SZ); } L.add(s.first - 16, len[i] + 32, lext); if (lsparse) for (long a : AL) L.add(s.first + a, len[i], lext); }
      if (!far) R.add(0, SZ, SZ);
      for (size_t i = 0; i < seg.size(); i++) if (kind == K_ACC) lg_small(r, ty, lb + seg[i].first, len[i] / es); else for (int k = 0; k < len[i]; k++) lb[seg[i].first + k] = (uint8_t)(i * 37 + k * 5 + (k >> 8) + op);
      if (kind == K_ACC) for (size_t i = 0; i < seg.size(); i++) lg_small(r, ty, orc + seg[i].second, len[i] / es);     // a sane starting value: nobody else is using this memory
      R.freeze(orc); L.freeze(lb); uint8_t sc[16] = {0}; bool one = r.chance(40); double kr = one ? 1 : (int)r.pick({2, -1, 3}), ki = one ? 0 : (int)r.pick({0, 1, -2});
      switch (ty) { case 0: *(int *)sc = (int)kr; break; case 1: *(long *)sc = (long)kr; break; case 2: *(float *)sc = kr; break; case 3: *(double *)sc = kr; break; case 4: ((float *)sc)[0] = kr; ((float *)sc)[1] = ki; break; case 5: ((double *)sc)[0] = kr; ((double *)sc)[1] = ki; break; }
      for (size_t i = 0; i < seg.size(); i++) { uint8_t *a = L.p(seg[i].first), *b = R.p(seg[i].second); long m = len[i]; if (kind == K_PUT) memcpy(b, a, m); else if (kind == K_GET) memcpy(a, b, m); else if (kind == K_ACC) { m /= es; switch (ty) { case 0: acc_n<int>(b, a, m, (int)kr); break; case 1: acc_n<long>(b, a, m, (long)kr); break; case 2: acc_n<float>(b, a, m, (float)kr); break; case 3: acc_n<double>(b, a, m, kr); break; case 4: acc_n<std::complex<float>>(b, a, m, {(float)kr, (float)ki}); break; case 5: acc_n<std::complex<double>>(b, a, m, {kr, ki}); break; } } }
      armci_hdl_t h; ARMCI_INIT_HANDLE(&h); armci_hdl_t *hp = nb && r.chance(60) ? &h : nullptr; int rc = 0, at = ACC_T[ty]; cnt(kind == K_PUT ? CN_PUT : kind == K_GET ? CN_GET : kind == K_ACC ? CN_ACC : CN_RMW);
      if (form == 0) { void *x = lb, *y = rem + rb; int l = len[0]; if (kind == K_PUT) rc = nb ? ARMCI_NbPut(x, y, l, t, hp) : r.chance(15) && rb + l + 4 <= 0 ? 0 : ARMCI_Put(x, y, l, t); else if (kind == K_GET) rc = nb ? ARMCI_NbGet(y, x, l, t, hp) : ARMCI_Get(y, x, l, t); else rc = nb ? ARMCI_NbAcc(at, sc, x, y, l, t, hp) : ARMCI_Acc(at, sc, x, y, l, t); }
      else if (form == 1) { void *x = lb, *y = rem + rb; if (kind == K_PUT) rc = nb ? ARMCI_NbPutS(x, ls, y, rs, cntv, levels, t, hp) : ARMCI_PutS(x, ls, y, rs, cntv, levels, t); else if (kind == K_GET) rc = nb ? ARMCI_NbGetS(y, rs, x, ls, cntv, levels, t, hp) : ARMCI_GetS(y, rs, x, ls, cntv, levels, t); else rc = nb ? ARMCI_NbAccS(at, sc, x, ls, y, rs, cntv, levels, t, hp) : ARMCI_AccS(at, sc, x, ls, y, rs, cntv, levels, t); }
      else if (form == 2) { std::vector<void *> a, b; for (auto &s : seg) a.push_back(lb + s.first), b.push_back(rem + s.second); std::vector<armci_giov_t> v; size_t k = 0; for (size_t d = 0; d < dn.size(); d++) { armci_giov_t g; g.src_ptr_array = kind == K_GET ? &b[k] : &a[k]; g.dst_ptr_array = kind == K_GET ? &a[k] : &b[k]; g.bytes = dlen[d]; g.ptr_array_len = dn[d]; v.push_back(g); k += dn[d]; }
        if (kind == K_PUT) rc = nb ? ARMCI_NbPutV(v.data(), (int)v.size(), t, hp) : ARMCI_PutV(v.data(), (int)v.size(), t); else if (kind == K_GET) rc = nb ? ARMCI_NbGetV(v.data(), (int)v.size(), t, hp) : ARMCI_GetV(v.data(), (int)v.size(), t); else rc = nb ? ARMCI_NbAccV(at, sc, v.data(), (int)v.size(), t, hp) : ARMCI_AccV(at, sc, v.data(), (int)v.size(), t); }
      else if (form == 3) { nb = false; long v; memcpy(&v, L.p(0), 8); if (kind == K_PUT) rc = ARMCI_PutValueLong(v, rem + rb, t); else { long q = ARMCI_GetValueLong(rem + rb, t); CHECK(q == v, "far-value", "value read at offset %ld of rank %d is %ld, expected %ld", rb, t, q, v); memcpy(lb, &v, 8); } }
      else { nb = false; long old, x = 0; memcpy(&old, R.p(rb), 8); bool sw = r.chance(40); long nv; if (sw) { memcpy(&x, lb, 8); nv = x; } else nv = old + 12345; memcpy(R.p(rb), &nv, 8); rc = ARMCI_Rmw(sw ? ARMCI_SWAP_LONG : ARMCI_FETCH_AND_ADD_LONG, lb, rem + rb, 12345, t); memcpy(L.p(0), &old, 8); }
      CHECK(rc == 0, "rc", "operation returned %d", rc); if (nb) { if (hp) ARMCI_Wait(hp); else ARMCI_WaitAll(); } ARMCI_Fence(t);
      static const char *KN[] = {"put", "get", "accumulate", "rmw"}, *FN[] = {"contiguous", "strided", "vector", "value", "rmw"}; auto what = [&] { std::string s = fmt("%s%s %s of %zu segments to rank %d (slice %ld bytes), first at offset %ld length %d", nb ? "nonblocking " : "", FN[form], KN[kind], seg.size(), t, SZ, seg[0].second, len[0]); if (form == 1) { s += ", counts"; for (int i = 0; i <= levels; i++) s += fmt(" %d", cntv[i]); s += ", remote strides"; for (int i = 0; i < levels; i++) s += fmt(" %d", rs[i]); s += ", local strides"; for (int i = 0; i < levels; i++) s += fmt(" %d", ls[i]); } return s; };
      long d = R.diff(orc); CHECK(d < 0, "large-remote", "%s: remote byte %ld is 0x%02x", what().c_str(), d, orc[d]); d = L.diff(lb); CHECK(d < 0, "large-local", "%s: local byte %ld is 0x%02x", what().c_str(), d, lb[d]); cnt(CN_READBACK);
      long tot = 0; for (int l : len) tot += l; feat(fh({181, (uint64_t)form, (uint64_t)kind, (uint64_t)nb, (uint64_t)levels, (uint64_t)(tot >> 15), (uint64_t)(seg.back().second >> 29), (uint64_t)own, (uint64_t)lsparse}));
      if (form == 1 && kind == K_PUT && tot <= 1 << 20) {    // the exported pack and unpack routines, with the same layout
        std::vector<uint8_t> pk(tot + 64, 0x5A), e; armci_write_strided(lb, levels, ls, cntv, (char *)pk.data()); for (size_t i = 0; i < seg.size(); i++) e.insert(e.end(), lb + seg[i].first, lb + seg[i].first + len[i]); e.resize(tot + 64, 0x5A); CHECK(pk == e, "large-pack", "packing %s is wrong", what().c_str());
        if (!own) { for (size_t i = 0; i < seg.size(); i++) memset(lb + seg[i].first, 0, len[i]); armci_read_strided(lb, levels, ls, cntv, (char *)pk.data()); d = L.diff(lb); CHECK(d < 0, "large-unpack", "unpacking with the layout of %s: byte %ld is 0x%02x", what().c_str(), d, lb[d]); } }
      if (raw) munmap(raw, rawlen);
    }
    ARMCI_Barrier();
  }
  CHECK(ARMCI_Free(loc[me]) == 0, "free-rc", "ARMCI_Free failed"); CHECK(ARMCI_Free(big[me]) == 0, "free-rc", "ARMCI_Free failed"); if (p.small_first) ARMCI_Free(sm[me]); armci_stop(c);
}
static void plan_far(Case &c) { lg_plan(c, true); } static void plan_bulk(Case &c) { lg_plan(c, false); }
static ScnReg r_far("FAR", plan_far, lg_run), r_bulk("BULK", plan_bulk, lg_run);
