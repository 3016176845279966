#include "engine.h"
#include <complex>
const int TY_SIZE[TY_N] = {1, 4, 8, 4, 8, 8, 16};
const int TY_ACC[TY_N] = {-1, ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP};
typedef std::complex<float> cf; typedef std::complex<double> cd;
static void put_small(Rng &r, int ty, uint8_t *p) {
  int a = (int)r.range(-40, 40), b = (int)r.range(-40, 40); if (!a) a = 7; if (!b) b = -5;
  switch (ty) { case TY_BYTE: *p = (uint8_t)r.next(); break; case TY_INT: { int v = a; memcpy(p, &v, 4); break; } case TY_LNG: { long v = a; memcpy(p, &v, 8); break; }
    case TY_FLT: { float v = a; memcpy(p, &v, 4); break; } case TY_DBL: { double v = a; memcpy(p, &v, 8); break; }
    case TY_CPL: { float v[2] = {(float)a, (float)b}; memcpy(p, v, 8); break; } case TY_DCP: { double v[2] = {(double)a, (double)b}; memcpy(p, v, 16); break; } }
}
static void mk_scale(Rng &r, int ty, uint8_t *s, bool intonly) {
  memset(s, 0, 16); bool one = r.chance(35);
  static const double V[] = {2, -1, 3, -2, 0, 0.5, -1.5, 5}; int n = intonly ? 5 : 8;
  double a = one ? 1 : V[r.below(n)], b = one ? 0 : (r.chance(30) ? 0 : V[r.below(n)]);
  if (!one && (ty == TY_CPL || ty == TY_DCP) && r.chance(25)) { a = 1; b = r.pick({1, -1, 2, -2}); }
  switch (ty) { case TY_INT: { int v = (int)a; memcpy(s, &v, 4); break; } case TY_LNG: { long v = (long)a; memcpy(s, &v, 8); break; } case TY_FLT: { float v = a; memcpy(s, &v, 4); break; } case TY_DBL: { memcpy(s, &a, 8); break; }
    case TY_CPL: { float v[2] = {(float)a, (float)b}; memcpy(s, v, 8); break; } case TY_DCP: { double v[2] = {a, b}; memcpy(s, v, 16); break; } }
}
static double mag(int ty, const uint8_t *p) {
  switch (ty) { case TY_INT: { int v; memcpy(&v, p, 4); return std::abs((double)v); } case TY_LNG: { long v; memcpy(&v, p, 8); return std::abs((double)v); } case TY_FLT: { float v; memcpy(&v, p, 4); return std::abs(v); } case TY_DBL: { double v; memcpy(&v, p, 8); return std::abs(v); }
    case TY_CPL: { float v[2]; memcpy(v, p, 8); return std::max(std::abs(v[0]), std::abs(v[1])); } case TY_DCP: { double v[2]; memcpy(v, p, 16); return std::max(std::abs(v[0]), std::abs(v[1])); } }
  return 0;
}
// dst += scale * src
static void acc1(int ty, const uint8_t *sc, const uint8_t *s, uint8_t *d) {
  switch (ty) {
    case TY_INT: { int a, b, k; memcpy(&a, s, 4); memcpy(&b, d, 4); memcpy(&k, sc, 4); b = (int)((unsigned)b + (unsigned)k * (unsigned)a); memcpy(d, &b, 4); break; }
    case TY_LNG: { long a, b, k; memcpy(&a, s, 8); memcpy(&b, d, 8); memcpy(&k, sc, 8); b = (long)((unsigned long)b + (unsigned long)k * (unsigned long)a); memcpy(d, &b, 8); break; }
    case TY_FLT: { float a, b, k; memcpy(&a, s, 4); memcpy(&b, d, 4); memcpy(&k, sc, 4); b = b + k * a; memcpy(d, &b, 4); break; }
    case TY_DBL: { double a, b, k; memcpy(&a, s, 8); memcpy(&b, d, 8); memcpy(&k, sc, 8); b = b + k * a; memcpy(d, &b, 8); break; }
    case TY_CPL: { float a[2], b[2], k[2]; memcpy(a, s, 8); memcpy(b, d, 8); memcpy(k, sc, 8); b[0] += k[0] * a[0] - k[1] * a[1]; b[1] += k[0] * a[1] + k[1] * a[0]; memcpy(d, b, 8); break; }
    case TY_DCP: { double a[2], b[2], k[2]; memcpy(a, s, 16); memcpy(b, d, 16); memcpy(k, sc, 16); b[0] += k[0] * a[0] - k[1] * a[1]; b[1] += k[0] * a[1] + k[1] * a[0]; memcpy(d, b, 16); break; }
  }
}
typedef std::vector<std::vector<std::vector<uint8_t>>> Mem;     // [region][member]
enum { CL_NONE, CL_READ, CL_ACC, CL_EXCL };
struct Gen {
  Case &c; Rng &r; EPlan &p; Mem model; Mem before; std::vector<std::vector<std::vector<uint8_t>>> claim; std::vector<int> liveregs; bool vec_overlap_ok, multi_ok, odd_ok;
  Gen(Case &c_, EPlan &p_) : c(c_), r(c_.rng), p(p_) {}
  bool can(int reg, int m, long off, long len, int cl) { auto &v = claim[reg][m]; if (off < 0 || off + len > (long)v.size()) return false; for (long i = off; i < off + len; i++) { if (v[i] == CL_NONE) continue; if (v[i] == cl && (cl == CL_READ || cl == CL_ACC)) continue; return false; } return true; }
  void take(int reg, int m, long off, long len, int cl) { auto &v = claim[reg][m]; for (long i = off; i < off + len; i++) v[i] = cl; }
  long rnd_len(long max) { if (max <= 0) return 0; switch (r.below(5)) { case 0: return 1 + r.below(std::min(max, 8l)); case 1: return 1 + r.below(std::min(max, 64l)); case 2: return max; default: return 1 + r.below(std::min(max, 600l)); } }
  bool make_op(int me, Op &o, int ph);
  void phase(int k);
};
// random strided layout with total extent <= room; unit: bytes of one element
static bool mk_strides(Rng &r, int levels, const int *cnt, int unit, int *str, long &extent, bool odd, bool dense) {
  long prev = cnt[0];
  for (int i = 0; i < levels; i++) {
    long s;
    if (i == 0) { long pad = dense || r.chance(30) ? 0 : unit * (long)r.below(5); s = prev + pad; if (odd) s += r.below(3) * unit; }
    else { long k = cnt[i] + (dense || r.chance(40) ? 0 : (long)r.below(3)); s = str[i - 1] * k; if (odd) s += unit * (long)r.below(4); }
    if (s > 2000000) return false; str[i] = (int)s;
  }
  extent = cnt[0]; for (int i = 0; i < levels; i++) extent += (long)str[i] * (cnt[i + 1] - 1);
  return true;
}
static void strided_offs(int levels, const int *cnt, const int *str, std::vector<long> &out) {
  std::vector<int> idx(levels + 1, 0); out.clear();
  for (;;) { long o = 0; for (int i = 0; i < levels; i++) o += (long)str[i] * idx[i]; out.push_back(o); int k = 0; while (k < levels && ++idx[k] == cnt[k + 1]) idx[k++] = 0; if (k == levels) break; }
}
bool Gen::make_op(int me, Op &o, int ph) {
  std::vector<int> cand; for (int i : liveregs) if (p.regs[i].slot(me) >= 0) cand.push_back(i);
  if (cand.empty()) return false;
  o = Op(); o.region = cand[r.below(cand.size())]; Region &R = p.regs[o.region]; int ty = R.ty, es = TY_SIZE[ty]; o.ty = ty;
  int mslot = (int)r.below(R.members.size()); if (p.f.p_self && r.chance(p.f.p_self)) mslot = R.slot(me); o.target = R.members[mslot]; long sz = R.size[mslot]; if (sz < es) return false;
  int tot = 0; for (int i = 0; i < 4; i++) tot += p.f.w_op[i]; int x = (int)r.below(tot); for (o.kind = 0; x >= p.f.w_op[o.kind]; o.kind++) x -= p.f.w_op[o.kind];
  if (o.kind == OP_ACC && ty == TY_BYTE) o.kind = r.chance(50) ? OP_PUT : OP_GET;
  if (o.kind == OP_RMW && ty != TY_INT && ty != TY_LNG) o.kind = OP_PUT;
  int wf[F_N]; memcpy(wf, p.f.w_form, sizeof wf);
  if (o.kind == OP_RMW || ty == TY_BYTE || ty == TY_CPL || ty == TY_DCP || o.kind == OP_ACC) wf[F_VALUE] = 0;
  if (o.kind != OP_PUT) wf[F_FLAG] = wf[F_SFLAG] = 0;
  tot = 0; for (int i = 0; i < F_N; i++) tot += wf[i]; if (!tot) { wf[F_CONTIG] = tot = 1; } x = (int)r.below(tot); for (o.form = 0; x >= wf[o.form]; o.form++) x -= wf[o.form];
  int cl = o.kind == OP_GET ? CL_READ : o.kind == OP_ACC ? CL_ACC : CL_EXCL;
  o.handle = -1; o.fflag_region = -1;
  if (o.kind == OP_RMW) {
    o.form = F_CONTIG; long off = es * (long)r.below(sz / es); if (!can(o.region, mslot, off, es, CL_EXCL)) return false;
    o.segs.push_back({0, o.region, off, es}); o.rmwop = ty == TY_INT ? (r.chance(50) ? ARMCI_FETCH_AND_ADD : ARMCI_SWAP) : (r.chance(50) ? ARMCI_FETCH_AND_ADD_LONG : ARMCI_SWAP_LONG); o.rmwval = (int)r.range(-9, 9);
    take(o.region, mslot, off, es, CL_EXCL); uint8_t *d = &model[o.region][mslot][off]; long old = 0;
    if (ty == TY_INT) { int v; memcpy(&v, d, 4); old = v; } else memcpy(&old, d, 8); o.rmwexp = old;
    o.lsize = es; o.ldata.resize(es); put_small(r, ty, o.ldata.data()); bool swap = o.rmwop == ARMCI_SWAP || o.rmwop == ARMCI_SWAP_LONG;
    o.lafter.resize(es); memcpy(o.lafter.data(), d, es);
    if (swap) memcpy(d, o.ldata.data(), es); else if (ty == TY_INT) { int v = (int)old + o.rmwval; memcpy(d, &v, 4); } else { long v = old + o.rmwval; memcpy(d, &v, 8); }
    return true;
  }
  o.nb = r.chance(p.f.p_nb) && o.form != F_FLAG && o.form != F_SFLAG && !(o.form == F_VALUE && o.kind == OP_GET);
  bool dense_l = r.chance(30), dense_r = r.chance(20);
  long lext = 0; std::vector<long> lo, ro; 
  if (o.form == F_CONTIG || o.form == F_FLAG || o.form == F_VALUE) {
    long n = o.form == F_VALUE ? 1 : std::max(1l, rnd_len(sz) / es); if (n * es > sz) n = sz / es; long len = n * es; if (ty == TY_BYTE && r.chance(p.f.p_zero)) len = 0;
    long off = r.chance(15) ? (sz - len) / es * es : es * (long)r.below((sz - len) / es + 1); if (len == 0 && off >= sz) off = sz - 1;
    o.segs.push_back({0, o.region, off, (int)len}); lext = len; o.rbase = off;
  } else if (o.form == F_STRIDED || o.form == F_SFLAG) {
    bool ok = false;
    for (int tries = 0; tries < 30 && !ok; tries++) {
      o.levels = r.chance(8) ? 0 : (int)r.range(1, r.chance(15) ? (r.chance(30) ? 13 : 7) : 3); o.cnt[0] = es * (int)(1 + r.below(r.chance(50) ? 4 : 16));
      for (int i = 1; i <= o.levels; i++) o.cnt[i] = (int)(o.levels > 7 ? 1 + r.below(2) * r.below(2) : r.chance(25) ? 1 : 1 + r.below(o.levels > 3 ? 3 : r.chance(10) ? 40 : 6));
      bool odd = odd_ok && r.chance(p.f.p_oddstride); long re;
      if (!mk_strides(r, o.levels, o.cnt, es, o.rstr, re, odd, dense_r) || re > sz) continue;
      if (!mk_strides(r, o.levels, o.cnt, es, o.lstr, lext, odd, dense_l) || lext > 200000) continue;
      long base = r.chance(20) ? (sz - re) / es * es : es * (long)r.below((sz - re) / es + 1); o.rbase = base;
      strided_offs(o.levels, o.cnt, o.rstr, ro); strided_offs(o.levels, o.cnt, o.lstr, lo); if (ro.size() > 2000) continue;
      ok = true;
    }
    if (!ok) return false;
    for (size_t i = 0; i < ro.size(); i++) o.segs.push_back({lo[i], o.region, o.rbase + ro[i], o.cnt[0]});
  } else {
    bool many = r.chance(p.f.p_many); int nd = many ? 1 : 1 + (int)r.below(3); long lpos = 0; bool adj = r.chance(p.f.p_adjacent);
    for (int d = 0; d < nd; d++) {
      int dreg = o.region, dm = mslot; 
      if (d && r.chance(30)) { std::vector<int> al; for (int i : liveregs) if (p.regs[i].slot(me) >= 0 && p.regs[i].slot(o.target) >= 0 && p.regs[i].ty == ty) al.push_back(i); dreg = al[r.below(al.size())]; dm = p.regs[dreg].slot(o.target); }
      long dsz = p.regs[dreg].size[dm]; if (dsz < es) continue;
      int n = many ? 120 + (int)r.below(500) : (r.chance(8) ? 0 : 1 + (int)r.below(r.chance(20) ? 40 : 6));
      int len = es * (int)(1 + r.below(many ? 2 : r.chance(60) ? 4 : 12)); if (len > dsz) len = es;
      Desc D{len, (int)o.segs.size(), 0}; long pos = es * (long)r.below(dsz / es);
      bool rev = r.chance(25);
      for (int k = 0; k < n; k++) {
        int sreg = dreg, sm = dm; if (multi_ok && r.chance(p.f.p_multi)) { std::vector<int> al; for (int i : liveregs) if (p.regs[i].slot(me) >= 0 && p.regs[i].slot(o.target) >= 0 && p.regs[i].ty == ty && p.regs[i].size[p.regs[i].slot(o.target)] >= len) al.push_back(i); if (!al.empty()) { sreg = al[r.below(al.size())]; sm = p.regs[sreg].slot(o.target); } }
        long ssz = p.regs[sreg].size[sm]; long off;
        if (adj) { off = pos; pos += rev ? -len : len; } else off = es * (long)r.below((ssz - len) / es + 1);
        if (off < 0 || off + len > ssz) continue;
        o.segs.push_back({0, sreg, off, len}); D.n++;
      }
      o.descs.push_back(D);
    }
    // drop segments that conflict, then lay out the local side
    std::vector<Seg> keep; std::vector<Desc> kd; std::set<std::pair<int, long>> used; 
    for (auto &D : o.descs) { Desc E{D.bytes, (int)keep.size(), 0}; std::vector<uint8_t> tmp;
      for (int k = D.first; k < D.first + D.n; k++) { Seg s = o.segs[k]; int m = p.regs[s.region].slot(o.target); if (!can(s.region, m, s.roff, s.len, cl)) continue;
        bool ov = false; if (o.kind != OP_GET) { if (!(o.kind == OP_ACC && vec_overlap_ok && r.chance(p.f.p_overlap * 3))) for (long b = s.roff; b < s.roff + s.len && !ov; b++) ov = used.count({s.region, b}); }
        if (ov) continue; for (long b = s.roff; b < s.roff + s.len; b++) used.insert({s.region, b});
        if (o.kind != OP_GET && cl == CL_EXCL) {} keep.push_back(s); E.n++; }
      kd.push_back(E); }
    o.segs = keep; o.descs = kd; if (o.segs.empty()) return false;
    // local layout: packed, gapped, shuffled; sources may overlap
    std::vector<int> order(o.segs.size()); for (size_t i = 0; i < order.size(); i++) order[i] = (int)i; if (r.chance(40)) for (size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
    bool gap = r.chance(60); for (int i : order) { if (gap) lpos += es * (long)r.below(4); o.segs[i].loff = lpos; lpos += o.segs[i].len; if (o.kind != OP_GET && r.chance(p.f.p_overlap) && lpos >= 2 * o.segs[i].len) lpos -= o.segs[i].len; }
    lext = 0; for (auto &s : o.segs) lext = std::max(lext, s.loff + s.len);
  }
  // remote claims (whole op must be free)
  for (auto &s : o.segs) if (s.len && !can(s.region, p.regs[s.region].slot(o.target), s.roff, s.len, cl)) return false;
  if (cl == CL_EXCL && o.form != F_VECTOR) { std::set<long> u; for (auto &s : o.segs) for (long b = s.roff; b < s.roff + s.len; b++) if (!u.insert(b).second) return false; }
  if (o.form == F_STRIDED || o.form == F_SFLAG) { std::vector<std::pair<long, long>> v; for (auto &s : o.segs) v.push_back({s.loff, s.loff + s.len}); std::sort(v.begin(), v.end()); for (size_t i = 1; i < v.size(); i++) if (v[i].first < v[i - 1].second) return false; }
  // flag location: any INT slice of the same target
  if (o.form == F_FLAG || o.form == F_SFLAG) {
    for (int t = 0; t < 8 && o.fflag_region < 0; t++) { int g = liveregs[r.below(liveregs.size())]; Region &G = p.regs[g]; int m = G.slot(o.target); if (G.slot(me) < 0 || m < 0 || G.ty != TY_INT || G.size[m] < 4) continue; long off = 4 * (long)r.below(G.size[m] / 4);
      bool clash = false; for (auto &s : o.segs) if (s.region == g && off < s.roff + s.len && s.roff < off + 4) clash = true;
      if (!clash && can(g, m, off, 4, CL_EXCL)) { o.fflag_region = g; o.flag_off = off; o.flag_val = (int)r.range(-30, 30); } }
    if (o.fflag_region < 0) return false;
  }
  // local side
  o.lsize = lext; o.lkind = r.chance(p.f.p_local) ? 2 : 0; o.lbase = 0; o.skew = ty == TY_BYTE ? (int)r.below(8) : 0;
  if (o.form == F_VALUE) o.lkind = 0;
  else if (r.chance(p.f.p_global) && lext) {
    for (int t = 0; t < 10; t++) { int g = cand[r.below(cand.size())]; Region &G = p.regs[g]; int m = G.slot(me); if (G.ty != ty || G.size[m] < lext) continue; long b = r.chance(20) ? (G.size[m] - lext) / es * es : es * (long)r.below((G.size[m] - lext) / es + 1);
      int lcl = o.kind == OP_GET ? CL_EXCL : CL_READ; bool ok = true;
      for (auto &s : o.segs) { if (!can(g, m, b + s.loff, s.len, lcl)) ok = false; }
      if (ok && g != -1 && o.target == me) for (auto &s : o.segs) for (auto &q : o.segs) if (s.region == g && s.roff < b + q.loff + q.len && b + q.loff < s.roff + s.len) { ok = false; break; }
      if (ok && o.fflag_region == g && o.target == me) for (auto &q : o.segs) if (o.flag_off < b + q.loff + q.len && b + q.loff < o.flag_off + 4) ok = false;
      if (!ok) continue;
      o.lkind = 1; o.lregion = g; o.lbase = b; for (auto &s : o.segs) take(g, m, b + s.loff, s.len, lcl); break; }
  }
  if (o.kind == OP_ACC) mk_scale(r, ty, o.scale, o.lkind == 1);
  // model
  for (auto &s : o.segs) take(s.region, p.regs[s.region].slot(o.target), s.roff, s.len, cl);
  if (o.fflag_region >= 0) { int m = p.regs[o.fflag_region].slot(o.target); take(o.fflag_region, m, o.flag_off, 4, CL_EXCL); memcpy(&model[o.fflag_region][m][o.flag_off], &o.flag_val, 4); }
  if (o.lkind != 1) { o.ldata.resize(o.lsize); for (auto &b : o.ldata) b = (uint8_t)r.next(); if (o.kind != OP_GET) for (auto &s : o.segs) for (long q = 0; q + es <= s.len; q += es) put_small(r, ty, &o.ldata[s.loff + q]); o.lafter = o.ldata; }
  const uint8_t *lsrc = o.lkind == 1 ? &before[o.lregion][p.regs[o.lregion].slot(me)][o.lbase] : o.ldata.data();
  uint8_t *ldst = o.lkind == 1 ? &model[o.lregion][p.regs[o.lregion].slot(me)][o.lbase] : o.lafter.data();
  std::vector<uint8_t> ltmp; if (o.lkind == 1) { ltmp.assign(lsrc, lsrc + o.lsize); lsrc = ltmp.data(); }
  if (o.kind == OP_ACC && o.lkind == 1) { double m = 0; for (auto &s : o.segs) for (long q = 0; q < s.len; q += es) m = std::max(m, mag(ty, lsrc + s.loff + q)); if (m > 1000) { memset(o.scale, 0, 16); } }
  for (auto &s : o.segs) { int m = p.regs[s.region].slot(o.target); uint8_t *rem = model[s.region][m].data() + s.roff;
    if (o.kind == OP_PUT) memcpy(rem, lsrc + s.loff, s.len); else if (o.kind == OP_GET) memcpy(ldst + s.loff, before[s.region][m].data() + s.roff, s.len);
    else for (long q = 0; q < s.len; q += es) acc1(ty, o.scale, lsrc + s.loff + q, rem + q); }
  return true;
}
void Gen::phase(int k) {
  Phase P; P.ops.resize(c.n); P.steps.resize(c.n); P.rseed = r.next(); P.sync = (int)r.below(4); P.opensync = (int)r.below(2); P.verify_reads = (int)r.below(4); if (c.sim.win_separate) { P.opensync = 1; P.sync = c.on("ARMCI_MSG_BARRIER_SYNCS") && r.chance(50) ? 3 : 0; }
  for (size_t i = 0; i < p.regs.size(); i++) { if (p.regs[i].born == k) { P.alloc.push_back((int)i); } if (p.regs[i].dies == k) P.free_.push_back((int)i); }
  if (P.alloc.size() > 1 && r.chance(50)) std::swap(P.alloc[0], P.alloc.back());
  liveregs.clear(); for (size_t i = 0; i < p.regs.size(); i++) if (p.regs[i].born <= k && (p.regs[i].dies > k || p.regs[i].dies < 0)) liveregs.push_back((int)i);
  before = model; claim.assign(p.regs.size(), {}); for (int i : liveregs) { claim[i].resize(p.regs[i].members.size()); for (size_t m = 0; m < p.regs[i].members.size(); m++) claim[i][m].assign(p.regs[i].size[m], CL_NONE); }
  int maxops = (int)r.range(1, p.f.maxops);
  struct HS { int mode = 0; std::vector<int> ops; };    // 0 idle 1 single 2 aggregate
  std::vector<std::vector<HS>> hs(c.n, std::vector<HS>(p.nh)); std::vector<std::vector<int>> impl(c.n);
  for (int round = 0; round < maxops && !liveregs.empty(); round++) for (int m = 0; m < c.n; m++) {
    auto &st = P.steps[m]; auto &ops = P.ops[m];
    auto done = [&](int i) { st.push_back({S_DONE, i, 0}); };
    auto wait_h = [&](int h) { st.push_back({r.chance(40) ? S_TEST : S_WAIT, h, 0}); for (int i : hs[m][h].ops) done(i); if (hs[m][h].mode == 2 && r.chance(70)) st.push_back({S_HUNSET, h, 0}); hs[m][h] = HS(); };
    auto impl_done = [&](int proc) { std::vector<int> rest; for (int i : impl[m]) if (proc < 0 || ops[i].target == proc) done(i); else rest.push_back(i); impl[m] = rest; };
    if (r.chance(15)) { int h = (int)r.below(p.nh); if (hs[m][h].mode) wait_h(h); else if (r.chance(30)) st.push_back({S_WAIT + (int)r.below(2), h, 1}); }
    if (r.chance(8)) { st.push_back({S_WAITALL, 0, 0}); impl_done(-1); }
    if (r.chance(12)) { int q = (int)r.below(c.n); st.push_back({S_WAITPROC, q, 0}); impl_done(q); }
    if (r.chance(8)) { st.push_back({S_FENCE, r.chance(30) ? -1 : (int)r.below(c.n), 0}); }
    if (r.chance(5)) st.push_back({S_PROGRESS, 0, 0});
    Op o; if (!make_op(m, o, k)) continue;
    int id = (int)ops.size();
    if (o.nb) { int h = r.chance(30) ? -1 : (int)r.below(p.nh);
      if (h >= 0) { HS &H = hs[m][h]; if (H.mode == 1) wait_h(h); if (H.mode == 0) { bool agg = r.chance(40); st.push_back({S_HINIT, h, agg}); H.mode = agg ? 2 : 1; } H.ops.push_back(id); }
      else impl[m].push_back(id); o.handle = h; }
    ops.push_back(std::move(o)); st.push_back({S_OP, id, 0}); if (!ops[id].nb) done(id);
    if (round == maxops - 1) {}
  }
  for (int m = 0; m < c.n; m++) { auto &st = P.steps[m]; std::vector<int> hsx; for (int h = 0; h < p.nh; h++) if (hs[m][h].mode) hsx.push_back(h); if (hsx.size() > 1 && r.chance(50)) std::reverse(hsx.begin(), hsx.end());
    for (int h : hsx) { st.push_back({r.chance(40) ? S_TEST : S_WAIT, h, 0}); for (int i : hs[m][h].ops) st.push_back({S_DONE, i, 0}); if (hs[m][h].mode == 2) st.push_back({S_HUNSET, h, 0}); }
    if (!impl[m].empty()) { st.push_back({S_WAITALL, 0, 0}); for (int i : impl[m]) st.push_back({S_DONE, i, 0}); } }
  p.expect.push_back(model); p.ph.push_back(std::move(P));
}
void engine_plan(Case &c, const Focus &f) {
  cfg_sim(c, f.nmin, f.nmax, 12); cfg_env(c, f.env); for (auto &e : f.fenv) env_set(c, e.first, e.second); Rng &r = c.rng;
  if (f.env && r.chance(8)) { c.sim.win_separate = 1; env_set(c, "ARMCI_SHR_BUF_METHOD", "COPY"); }   // windows with separate public and private copies
  auto pl = std::make_shared<EPlan>(); EPlan &p = *pl; c.plan = pl; p.f = f;
  int n = c.n; bool big = r.chance(f.p_big);
  std::vector<int> all(n); for (int i = 0; i < n; i++) all[i] = i;
  for (int g = 0; g < f.ngroups; g++) { std::vector<int> m; while (m.empty()) for (int i = 0; i < n; i++) if (r.chance(60)) m.push_back(i); if (!c.on("ARMCI_NONCOLLECTIVE_GROUPS") && r.chance(30)) for (size_t i = m.size() - 1; i > 0; i--) std::swap(m[i], m[r.below(i + 1)]); p.groups.push_back(m); }
  int nph = (int)r.range(1, f.phases), nreg = (int)r.range(1, f.nreg);
  Gen G(c, p);
  G.vec_overlap_ok = !c.is_mpich() || c.getenv("ARMCI_IOV_METHOD") == "" || c.getenv("ARMCI_IOV_METHOD") == "BATCHED" || c.getenv("ARMCI_IOV_METHOD") == "CONSRV" || (c.on("ARMCI_IOV_CHECKS") && !c.build("-fast"));
  G.multi_ok = c.on("ARMCI_IOV_CHECKS"); G.odd_ok = true;
  for (int i = 0; i < nreg; i++) {
    Region R; R.group = !p.groups.empty() && r.chance(50) ? (int)r.below(p.groups.size()) : -1; R.memdev = r.chance(10); R.members = R.group < 0 ? all : p.groups[R.group];
    R.ty = r.chance(f.p_typed) ? 1 + (int)r.below(TY_N - 1) : TY_BYTE; int es = TY_SIZE[R.ty];
    if (i && f.dynamic && r.chance(25)) R.ty = p.regs[0].ty, es = TY_SIZE[R.ty];
    long mx = big ? 60000 : r.pick({f.maxslice, f.maxslice, 300l, 100l}); bool even = r.chance(50); long e = es * (1 + (long)r.below(std::max(1l, mx / es)));
    for (size_t m = 0; m < R.members.size(); m++) { long s = even ? e : es * (long)r.below(mx / es + 1); if (!even && r.chance(20)) s = 0; if (R.ty == TY_BYTE && !even && r.chance(30)) s = 1 + r.below(40); R.size.push_back(s); }
    R.born = f.dynamic ? (int)r.below(nph) : 0; if (i == 0) R.born = 0; R.dies = -1; if (f.dynamic && r.chance(50) && R.born + 1 < nph) R.dies = (int)r.range(R.born + 1, nph - 1);
    R.freeform = 0; p.regs.push_back(R);
    std::vector<std::vector<uint8_t>> in; for (size_t m = 0; m < R.members.size(); m++) { std::vector<uint8_t> v(R.size[m]); for (long q = 0; q + es <= R.size[m]; q += es) put_small(r, R.ty, &v[q]); in.push_back(v); }
    p.init.push_back(in);
  }
  G.model = p.init;
  for (int k = 0; k < nph; k++) G.phase(k);
  int nops = 0; for (auto &P : p.ph) for (auto &o : P.ops) nops += (int)o.size();
  c.desc = fmt("%d ranks, %d phases, %d regions, %zu groups, %d ops", n, nph, nreg, p.groups.size(), nops);
  c.sim.slab = big ? (16ull << 20) : (4ull << 20);
}
static std::string op_str(const Op &o) {
  static const char *K[] = {"put", "get", "acc", "rmw"}, *F[] = {"contiguous", "strided", "vector", "value", "flagged", "strided flagged"}, *T[] = {"byte", "int", "long", "float", "double", "complex", "double complex"};
  std::string s = fmt("%s%s %s of %s, region %d at rank %d, %zu segments", o.nb ? "nonblocking " : "", F[o.form], K[o.kind], T[o.ty], o.region, o.target, o.segs.size());
  if (o.segs.size()) s += fmt(", first at offset %ld length %d", o.segs[0].roff, o.segs[0].len);
  if (o.form == F_STRIDED || o.form == F_SFLAG) { s += fmt(", levels %d counts", o.levels); for (int i = 0; i <= o.levels; i++) s += fmt(" %d", o.cnt[i]); s += " remote strides"; for (int i = 0; i < o.levels; i++) s += fmt(" %d", o.rstr[i]); s += " local strides"; for (int i = 0; i < o.levels; i++) s += fmt(" %d", o.lstr[i]); }
  if (o.lkind == 1) s += fmt(", local buffer in region %d offset %ld", o.lregion, o.lbase);
  return s;
}
struct Eng {
  Case &c; EPlan &p; int me; std::vector<std::vector<void *>> ptr; std::vector<ARMCI_Group> grp; std::vector<armci_hdl_t> hdl;
  Eng(int m, Case &c_) : c(c_), p(*plan_of<EPlan>(c_)), me(m) {}
  uint8_t *slice(int reg, int world) { Region &R = p.regs[reg]; int m = R.slot(world); return (uint8_t *)ptr[reg][m]; }
  void create_groups() { grp.resize(p.groups.size()); for (size_t g = 0; g < p.groups.size(); g++) { std::vector<int> l = p.groups[g]; cnt(CN_GROUP); ARMCI_Group_create((int)l.size(), l.data(), &grp[g]); } }
  bool in_group(int g) { for (int m : p.groups[g]) if (m == me) return true; return false; }
  void alloc(int i) {
    Region &R = p.regs[i]; ptr[i].assign(R.members.size(), (void *)0x1); int s = R.slot(me); if (s < 0) return; int rc; cnt(CN_ALLOC);
    if (R.group < 0) rc = R.memdev ? ARMCI_Malloc_memdev(ptr[i].data(), R.size[s], "default") : ARMCI_Malloc(ptr[i].data(), R.size[s]);
    else rc = R.memdev ? ARMCI_Malloc_group_memdev(ptr[i].data(), R.size[s], &grp[R.group], "x") : ARMCI_Malloc_group(ptr[i].data(), R.size[s], &grp[R.group]);
    CHECK(rc == 0, "malloc-rc", "allocation returned %d", rc);
    if (R.size[s]) { CHECK(ptr[i][s] != nullptr, "malloc-null", "own slice of %ld bytes has a NULL address", R.size[s]);
      CHECK(sim_slab_offset(ptr[i][s]) >= 0, "malloc-not-global", "own slice is not inside memory obtained from MPI"); }
    long total = 0; for (long z : R.size) total += z;
    for (size_t m = 0; m < R.members.size(); m++) { if (R.size[m]) CHECK(sim_slab_of(c.rmap.empty() ? R.members[m] : c.rmap[R.members[m]], ptr[i][m]) != nullptr, "malloc-bad-address", "address %p given for rank %d is not in that rank's memory", ptr[i][m], R.members[m]); else CHECK(ptr[i][m] == nullptr || total, "malloc-zero", "non-NULL address for an all-zero allocation"); }
    // disjoint from the other live allocations of this rank
    for (size_t j = 0; j < p.regs.size(); j++) { if ((int)j == i || ptr[j].empty()) continue; int t = p.regs[j].slot(me); if (t < 0 || !p.regs[j].size[t] || !R.size[s]) continue; uint8_t *a = (uint8_t *)ptr[i][s], *b = (uint8_t *)ptr[j][t]; CHECK(a + R.size[s] <= b || b + p.regs[j].size[t] <= a, "malloc-overlap", "slices of two live allocations overlap"); }
    if (R.size[s]) { if (c.on("ARMCI_DEBUG_ALLOC")) for (long q = 0; q < R.size[s]; q++) CHECK(((uint8_t *)ptr[i][s])[q] == 0, "debug-alloc", "ARMCI_DEBUG_ALLOC: byte %ld of a new allocation is not zero", q);
      memcpy(ptr[i][s], p.init[i][s].data(), R.size[s]); }
    feat(fh({1, (uint64_t)R.ty, (uint64_t)(R.group >= 0), R.size[s] ? 1ull : 0ull, R.members.size()}));
  }
  void dealloc(int i) { Region &R = p.regs[i]; int s = R.slot(me); if (s < 0) { ptr[i].clear(); return; } cnt(CN_FREE);
    void *q = ptr[i][s]; if (!R.size[s]) q = nullptr; int rc = R.group < 0 ? (R.memdev ? ARMCI_Free_memdev(q) : ARMCI_Free(q)) : ARMCI_Free_group(q, &grp[R.group]); CHECK(rc == 0, "free-rc", "free returned %d", rc); ptr[i].clear(); }
  void exec(Op &o) {
    if (o.lkind == 1) { o.lbuf = slice(o.lregion, me) + o.lbase; }
    else { long n = std::max(1l, o.lsize); if (o.lkind == 2) { o.lraw = (uint8_t *)ARMCI_Malloc_local(n); CHECK(o.lraw, "malloc-local", "ARMCI_Malloc_local returned NULL"); o.lbuf = o.lraw; } else { o.lraw = (uint8_t *)malloc(n + o.skew); o.lbuf = o.lraw + o.skew; } if (o.lsize) memcpy(o.lbuf, o.ldata.data(), o.lsize); }
    armci_hdl_t *h = o.nb && o.handle >= 0 ? &hdl[o.handle] : nullptr; int rc = 0; uint8_t *rb = o.segs.empty() ? nullptr : slice(o.segs[0].region, o.target); int len = o.segs.empty() ? 0 : o.segs[0].len;
    uint8_t *rp = rb + o.rbase; int acc = TY_ACC[o.ty]; uint8_t sc[16]; memcpy(sc, o.scale, 16);
    cnt(o.kind == OP_PUT ? CN_PUT : o.kind == OP_GET ? CN_GET : o.kind == OP_ACC ? CN_ACC : CN_RMW); if (o.nb) cnt(CN_NB);
    feat(fh({2, (uint64_t)o.kind, (uint64_t)o.form, (uint64_t)o.ty, (uint64_t)o.nb, (uint64_t)(o.handle >= 0), (uint64_t)o.lkind, (uint64_t)(o.target == me), (uint64_t)o.levels, (uint64_t)std::min<size_t>(o.segs.size(), 4), (uint64_t)o.descs.size(), (uint64_t)(p.regs[o.region].group >= 0)}));
    if (o.kind == OP_RMW) {
      rc = ARMCI_Rmw(o.rmwop, o.lbuf, rb + o.segs[0].roff, o.rmwval, o.target);
    } else if (o.form == F_CONTIG) {
      if (o.kind == OP_PUT) rc = o.nb ? ARMCI_NbPut(o.lbuf, rp, len, o.target, h) : ARMCI_Put(o.lbuf, rp, len, o.target);
      else if (o.kind == OP_GET) rc = o.nb ? ARMCI_NbGet(rp, o.lbuf, len, o.target, h) : ARMCI_Get(rp, o.lbuf, len, o.target);
      else rc = o.nb ? ARMCI_NbAcc(acc, sc, o.lbuf, rp, len, o.target, h) : ARMCI_Acc(acc, sc, o.lbuf, rp, len, o.target);
    } else if (o.form == F_STRIDED || o.form == F_SFLAG) {
      // argument arrays live in exact-size heap blocks and are released when the call returns
      int *ls = (int *)malloc(std::max(1, o.levels) * 4), *rs = (int *)malloc(std::max(1, o.levels) * 4), *ct = (int *)malloc((o.levels + 1) * 4);
      memcpy(ls, o.lstr, o.levels * 4); memcpy(rs, o.rstr, o.levels * 4); memcpy(ct, o.cnt, (o.levels + 1) * 4);
      if (o.form == F_SFLAG) rc = ARMCI_PutS_flag(o.lbuf, ls, rp, rs, ct, o.levels, (int *)(slice(o.fflag_region, o.target) + o.flag_off), o.flag_val, o.target);
      else if (o.kind == OP_PUT) rc = o.nb ? ARMCI_NbPutS(o.lbuf, ls, rp, rs, ct, o.levels, o.target, h) : ARMCI_PutS(o.lbuf, ls, rp, rs, ct, o.levels, o.target);
      else if (o.kind == OP_GET) rc = o.nb ? ARMCI_NbGetS(rp, rs, o.lbuf, ls, ct, o.levels, o.target, h) : ARMCI_GetS(rp, rs, o.lbuf, ls, ct, o.levels, o.target);
      else rc = o.nb ? ARMCI_NbAccS(acc, sc, o.lbuf, ls, rp, rs, ct, o.levels, o.target, h) : ARMCI_AccS(acc, sc, o.lbuf, ls, rp, rs, ct, o.levels, o.target);
      CHECK(!memcmp(ls, o.lstr, o.levels * 4) && !memcmp(rs, o.rstr, o.levels * 4) && !memcmp(ct, o.cnt, (o.levels + 1) * 4), "args-modified", "stride or count arrays were modified by %s", op_str(o).c_str());
      free(ls); free(rs); free(ct);
    } else if (o.form == F_VECTOR) {
      std::vector<armci_giov_t> v(o.descs.size()); std::vector<void **> blocks;
      for (size_t d = 0; d < v.size(); d++) { int n = o.descs[d].n; void **a = (void **)malloc(std::max(1, n) * 8), **b = (void **)malloc(std::max(1, n) * 8); blocks.push_back(a); blocks.push_back(b);
        for (int k = 0; k < n; k++) { Seg &s = o.segs[o.descs[d].first + k]; a[k] = o.lbuf + s.loff; b[k] = slice(s.region, o.target) + s.roff; }
        v[d].bytes = o.descs[d].bytes; v[d].ptr_array_len = n; if (o.kind == OP_GET) { v[d].src_ptr_array = b; v[d].dst_ptr_array = a; } else { v[d].src_ptr_array = a; v[d].dst_ptr_array = b; } }
      if (o.kind == OP_PUT) rc = o.nb ? ARMCI_NbPutV(v.data(), (int)v.size(), o.target, h) : ARMCI_PutV(v.data(), (int)v.size(), o.target);
      else if (o.kind == OP_GET) rc = o.nb ? ARMCI_NbGetV(v.data(), (int)v.size(), o.target, h) : ARMCI_GetV(v.data(), (int)v.size(), o.target);
      else rc = o.nb ? ARMCI_NbAccV(acc, sc, v.data(), (int)v.size(), o.target, h) : ARMCI_AccV(acc, sc, v.data(), (int)v.size(), o.target);
      for (size_t d = 0; d < v.size(); d++) { int n = o.descs[d].n; bool same = v[d].bytes == o.descs[d].bytes && v[d].ptr_array_len == n; void **a = blocks[2 * d], **b = blocks[2 * d + 1]; for (int k = 0; k < n; k++) { Seg &s = o.segs[o.descs[d].first + k]; same = same && a[k] == o.lbuf + s.loff && b[k] == slice(s.region, o.target) + s.roff; }
        CHECK(same, "args-modified", "descriptor %zu was modified by %s", d, op_str(o).c_str()); }
      for (auto b : blocks) free(b);
    } else if (o.form == F_VALUE) {
      if (o.kind == OP_PUT) switch (o.ty) {
        case TY_INT: { int v; memcpy(&v, o.lbuf, 4); rc = o.nb ? ARMCI_NbPutValueInt(v, rp, o.target, h) : ARMCI_PutValueInt(v, rp, o.target); break; }
        case TY_LNG: { long v; memcpy(&v, o.lbuf, 8); rc = o.nb ? ARMCI_NbPutValueLong(v, rp, o.target, h) : ARMCI_PutValueLong(v, rp, o.target); break; }
        case TY_FLT: { float v; memcpy(&v, o.lbuf, 4); rc = o.nb ? ARMCI_NbPutValueFloat(v, rp, o.target, h) : ARMCI_PutValueFloat(v, rp, o.target); break; }
        case TY_DBL: { double v; memcpy(&v, o.lbuf, 8); rc = o.nb ? ARMCI_NbPutValueDouble(v, rp, o.target, h) : ARMCI_PutValueDouble(v, rp, o.target); break; } }
      else switch (o.ty) {
        case TY_INT: { int v = ARMCI_GetValueInt(rp, o.target); memcpy(o.lbuf, &v, 4); break; } case TY_LNG: { long v = ARMCI_GetValueLong(rp, o.target); memcpy(o.lbuf, &v, 8); break; }
        case TY_FLT: { float v = ARMCI_GetValueFloat(rp, o.target); memcpy(o.lbuf, &v, 4); break; } case TY_DBL: { double v = ARMCI_GetValueDouble(rp, o.target); memcpy(o.lbuf, &v, 8); break; } }
    } else if (o.form == F_FLAG) rc = ARMCI_Put_flag(o.lbuf, rp, len, (int *)(slice(o.fflag_region, o.target) + o.flag_off), o.flag_val, o.target);
    CHECK(rc == 0, o.form == F_SFLAG ? "rc-putsflag" : "rc", "%s returned %d", op_str(o).c_str(), rc);
    if (o.kind == OP_ACC) CHECK(!memcmp(sc, o.scale, 16), "scale-modified", "the scale argument was modified by %s", op_str(o).c_str());
    if (o.form == F_VALUE && o.nb && 0) o.completed = true;
  }
  void done(Op &o) {
    o.completed = true;
    if (o.lkind == 1) { if (o.kind == OP_GET) { int m = p.regs[o.lregion].slot(me); (void)m; } return; }
    std::vector<uint8_t> &e = o.lafter; cnt(CN_BYTES, o.lsize);
    if (o.lsize && memcmp(o.lbuf, e.data(), o.lsize)) { long b = 0; while (o.lbuf[b] == e[b]) b++; bool inseg = false; for (auto &s : o.segs) if (b >= s.loff && b < s.loff + s.len) inseg = true;
      if (o.kind == OP_GET || o.kind == OP_RMW) sim_fatal("ORACLE", inseg ? "get-data" : "get-stray", "%s: local byte %ld is %02x, expected %02x", op_str(o).c_str(), b, o.lbuf[b], e[b]);
      sim_fatal("ORACLE", "source-modified", "%s: byte %ld of the caller's source buffer changed", op_str(o).c_str(), b); }
    cnt(CN_EVAL);
    // the buffer may be reused or released now
    if (o.lkind == 2) { memset(o.lbuf, 0xD5, o.lsize); ARMCI_Free_local(o.lraw); } else { memset(o.lbuf, 0xD5, o.lsize); free(o.lraw); }
    o.lraw = o.lbuf = nullptr;
  }
  void verify_own(int k) {
    for (size_t i = 0; i < p.regs.size(); i++) { if (ptr[i].empty()) continue; int s = p.regs[i].slot(me); if (s < 0 || !p.regs[i].size[s]) continue;
      auto &e = p.expect[k][i][s]; uint8_t *a = (uint8_t *)ptr[i][s]; if (p.ph[k].sync & 1) ARMCI_Access_begin(a); cnt(CN_BYTES, e.size()); cnt(CN_DIRECT);
      if (memcmp(a, e.data(), e.size())) { long b = 0; while (a[b] == e[b]) b++; std::string who; for (int m = 0; m < c.n; m++) for (auto &o : p.ph[k].ops[m]) { bool hit = o.target == me; if (hit) { hit = false; for (auto &q : o.segs) if (q.region == (int)i && b >= q.roff && b < q.roff + q.len) hit = true; if (o.fflag_region == (int)i && b >= o.flag_off && b < o.flag_off + 4) hit = true; } if (m == me && o.lkind == 1 && o.lregion == (int)i && o.kind == OP_GET) for (auto &q : o.segs) if (b >= o.lbase + q.loff && b < o.lbase + q.loff + q.len) hit = true; if (hit && who.size() < 300) who += fmt(" [rank %d: %s]", m, op_str(o).c_str()); }
        sim_fatal("ORACLE", who.empty() ? "memory-stray" : "memory-data", "after phase %d: byte %ld of region %zu at rank %d is %02x, expected %02x;%s", k, b, i, me, a[b], e[b], who.empty() ? " no operation of this phase names that byte" : who.c_str()); }
      cnt(CN_EVAL); if (p.ph[k].sync & 1) ARMCI_Access_end(a); }
  }
  void verify_remote(int k, Rng &r) {
    for (int t = 0; t < p.ph[k].verify_reads; t++) { std::vector<int> al; for (size_t i = 0; i < p.regs.size(); i++) if (!ptr[i].empty() && p.regs[i].slot(me) >= 0) al.push_back((int)i); if (al.empty()) return;
      int i = al[r.below(al.size())]; int m = (int)r.below(p.regs[i].members.size()); long sz = p.regs[i].size[m]; if (!sz) continue; long off = r.below(sz), len = 1 + r.below(std::min(sz - off, 400l)); std::vector<uint8_t> b(len, 0x33);
      int rc = ARMCI_Get((uint8_t *)ptr[i][m] + off, b.data(), (int)len, p.regs[i].members[m]); CHECK(rc == 0, "rc", "get returned %d", rc); cnt(CN_READBACK); cnt(CN_BYTES, len);
      CHECK(!memcmp(b.data(), &p.expect[k][i][m][off], len), "remote-read", "after phase %d: get of [%ld,%ld) of region %d from rank %d differs from the expected contents", k, off, off + len, i, p.regs[i].members[m]); }
  }
  void body() {
    ptr.resize(p.regs.size()); hdl.resize(p.nh); for (auto &h : hdl) ARMCI_INIT_HANDLE(&h);
    create_groups();
    for (size_t k = 0; k < p.ph.size(); k++) {
      Phase &P = p.ph[k]; Rng r; r.s = P.rseed + me * 77;
      for (int i : P.free_) dealloc(i);
      for (int i : P.alloc) alloc(i);
      if (P.opensync) ARMCI_Barrier(); rank_barrier(c);
      for (auto &s : P.steps[me]) switch (s.what) {
        case S_OP: exec(P.ops[me][s.a]); break;
        case S_DONE: done(P.ops[me][s.a]); break;
        case S_HINIT: ARMCI_INIT_HANDLE(&hdl[s.a]); if (s.b) ARMCI_SET_AGGREGATE_HANDLE(&hdl[s.a]); break;
        case S_HUNSET: ARMCI_UNSET_AGGREGATE_HANDLE(&hdl[s.a]); break;
        case S_WAIT: { cnt(CN_WAIT); int rc = ARMCI_Wait(&hdl[s.a]); CHECK(rc == 0 || s.b, "rc-wait", "ARMCI_Wait returned %d", rc); break; }
        case S_TEST: { cnt(CN_WAIT); int t = 0; while (ARMCI_Test(&hdl[s.a])) { if (++t > 2000) sim_fatal("ORACLE", s.b ? "test-inactive" : "test-never", "ARMCI_Test on %s never reports completion", s.b ? "a handle with no outstanding operation" : "a handle with an issued operation"); sim_yield(); } cnt(CN_EVAL); break; }
        case S_WAITALL: { cnt(CN_WAIT); int rc = ARMCI_WaitAll(); CHECK(rc == 0, "rc-waitall", "ARMCI_WaitAll returned %d", rc); break; }
        case S_WAITPROC: { cnt(CN_WAIT); int rc = ARMCI_WaitProc(s.a); CHECK(rc == 0, "rc-waitproc", "ARMCI_WaitProc returned %d", rc); break; }
        case S_FENCE: cnt(CN_FENCE); if (s.a < 0) ARMCI_AllFence(); else ARMCI_Fence(s.a); break;
        case S_PROGRESS: ARMCIX_Progress(); break;
      }
      cnt(CN_FENCE);
      switch (P.sync) {
        case 0: ARMCI_Barrier(); break;
        case 1: ARMCI_AllFence(); rank_barrier(c); break;
        case 2: for (int q = 0; q < c.n; q++) ARMCI_Fence((q + me) % c.n); armci_msg_barrier(); break;
        case 3: ARMCI_AllFence(); armci_msg_barrier(); break;
      }
      if (P.sync == 2 || c.sim.win_separate) rank_barrier(c);
      verify_own((int)k); verify_remote((int)k, r);
      rank_barrier(c);
    }
    for (size_t i = 0; i < p.regs.size(); i++) if (!ptr[i].empty()) dealloc((int)i);
    for (size_t g = 0; g < p.groups.size(); g++) ARMCI_Group_free(&grp[g]);
  }
};
void engine_body(int me, Case &c) { Eng e(me, c); e.body(); }
void engine_run(int me, Case &c) { armci_start(c); engine_body(me, c); armci_stop(c); }

#define ENG(name, ...) static void plan_##name(Case &c) { Focus f; __VA_ARGS__; engine_plan(c, f); } static ScnReg reg_##name(#name, plan_##name, engine_run);
static void forms(Focus &f, int a, int b, int v, int val, int fl, int sf) { int w[F_N] = {a, b, v, val, fl, sf}; memcpy(f.w_form, w, sizeof w); }
static void kinds(Focus &f, int a, int b, int k, int m) { int w[4] = {a, b, k, m}; memcpy(f.w_op, w, sizeof w); }
ENG(E_CONTIG, { forms(f, 10, 0, 0, 4, 2, 0); kinds(f, 10, 10, 0, 0); f.p_typed = 40; f.p_nb = 25; f.maxops = 8; f.p_global = 15; f.env = 3; })
ENG(E_STRIDED, { forms(f, 0, 10, 0, 0, 0, 2); kinds(f, 10, 10, 0, 0); f.p_typed = 40; f.p_oddstride = 25; f.maxops = 5; f.env = 2; f.p_global = 12; })
ENG(E_IOV, { forms(f, 0, 0, 10, 0, 0, 0); kinds(f, 10, 10, 0, 0); f.p_typed = 40; f.p_many = 10; f.p_multi = 20; f.maxops = 5; f.env = 2; f.p_global = 12; })
ENG(E_ACC, { forms(f, 10, 8, 8, 0, 0, 0); kinds(f, 1, 1, 14, 0); f.p_typed = 97; f.p_global = 8; f.env = 2; f.p_self = 15; })
ENG(E_NB, { f.ngroups = 2; f.p_nb = 92; f.maxops = 12; f.phases = 3; f.p_many = 8; f.p_global = 10; f.env = 3; })
ENG(E_ALLOC, { f.nreg = 7; f.phases = 5; f.maxops = 3; f.ngroups = 1; })
ENG(E_GRP, { f.ngroups = 3; f.nreg = 5; f.nmin = 2; f.nmax = 6; kinds(f, 10, 8, 8, 4); })
ENG(E_MIX, { f.env = 2; f.ngroups = 1; f.p_global = 10; f.p_oddstride = 10; f.p_multi = 5; })
ENG(E_OVL, { forms(f, 0, 0, 10, 0, 0, 0); kinds(f, 6, 8, 12, 0); f.p_typed = 70; f.p_overlap = 35; f.p_multi = 30; f.p_many = 12; f.maxops = 5; f.env = 1; f.fenv.push_back({"ARMCI_IOV_CHECKS", "1"}); f.fenv.push_back({"ARMCI_STRIDED_METHOD", "IOV"}); })
ENG(E_SHR, { f.env = 2; f.p_global = 85; f.p_typed = 60; f.p_self = 30; f.nreg = 3; })
