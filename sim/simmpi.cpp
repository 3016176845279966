// Strict and hostile MPI over the simulator core.
#include "simcore.h"
#include "include/mpi.h"
#include <vector>
#include <deque>
#include <map>
#include <memory>
#include <algorithm>
#include <complex>
#include <set>
#include <functional>
#include <stdarg.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif
using std::vector; using std::shared_ptr;

// ------------------------------------------------------------------ objects
struct Block { long off; long len; };
struct DTData {
  vector<Block> blk;            // in type-map order, merged when adjacent
  long lb = 0, ub = 0, size = 0, true_lb = 0, true_ub = 0;
  int base = 0;                 // predefined type number, -1 if mixed
  int base_size = 1;
};
struct simmpi_dt_s { int id; bool predefined; bool committed; bool freed; shared_ptr<DTData> d; };
struct simmpi_op_s { int id; bool predefined; bool commute; bool freed; MPI_User_function *fn; };
struct simmpi_comm_s { Ctx *ctx; int rank; int size; bool builtin; bool freed; bool inter; int side; char name[64]; };
struct simmpi_group_s { vector<int> r; bool freed; bool builtin; };
struct simmpi_info_s { std::map<std::string, std::string> kv; bool freed; };
struct simmpi_errh_s { int id; };
struct simmpi_msg_s { Msg *m; MPI_Comm c; };
typedef std::complex<float> simmpi_cflt_; typedef std::complex<double> simmpi_cdbl_;
typedef simmpi_cflt_ simmpi_cflt; typedef simmpi_cdbl_ simmpi_cdbl;
struct simmpi_2int { int a, b; }; struct simmpi_dblint { double a; int b; };

struct RmaOp {
  int kind;                     // 0 put 1 get 2 acc 3 getacc 4 cas
  int target; const void *org = nullptr; int oc = 0; shared_ptr<DTData> od;
  void *res = nullptr; int rc = 0; shared_ptr<DTData> rd;
  long tdisp = 0; int tc = 0; shared_ptr<DTData> td; int op = 0;
  const void *cmp = nullptr;
  vector<uint8_t> snap, fetched; bool snapped = false; uint64_t hash = 0;
  long done = 0, total = 0;     // bytes applied
  bool applied = false, local_done = false, backwards = false, isreq = false;
  bool acc() const { return kind >= 2; }
};
struct simmpi_win_s {
  WinSh *sh; MPI_Comm comm; int me; bool freed; int flavor; int *model; void *base; long size; int disp;
  bool lockall; int lock[SIM_MAXR]; std::deque<shared_ptr<RmaOp>> q; bool attached_alloc; std::map<std::string, std::string> info; bool fence_epoch; std::map<int, long> since; size_t prune_at = 64;
};
struct simmpi_req_s {
  int kind;                     // 1 rma 2 send 3 recv 4 coll 5 coll in general form
  shared_ptr<RmaOp> op; MPI_Win win; Msg *m; bool done; MPI_Status st; int tests;
  void *buf; int count; shared_ptr<DTData> dt; int src, tag; MPI_Comm comm; bool freed;
  CollSlot *slot; int ckind; int croot; void *cbuf; long clen; int ci;
  std::function<bool()> fready; std::function<void()> ffin;      // kind 5: nonblocking collectives in general form
};

extern "C" {
struct simmpi_comm_s simmpi_comm_world, simmpi_comm_self; struct simmpi_group_s simmpi_group_empty; struct simmpi_errh_s simmpi_errh0 = {0}, simmpi_errh1 = {1}, simmpi_errh2 = {2};
}
#define DT(N) extern "C" { struct simmpi_dt_s simmpi_dt_##N; }
#define X(name, ty, n) DT(n)
SIMMPI_TYPES(X)
#undef X
#define OPD(N) extern "C" { struct simmpi_op_s simmpi_op_##N; }
OPD(1) OPD(2) OPD(3) OPD(4) OPD(5) OPD(6) OPD(7) OPD(8) OPD(9) OPD(10) OPD(11) OPD(12) OPD(13) OPD(14)

static int g_init, g_fini, g_level;
static SimCensus C;
static std::map<uint8_t *, long> *g_mem;        // MPI memory blocks of this rank
static std::set<void *> *g_live;                // live handles (any kind)
static std::set<MPI_Win> *g_wins;
static std::deque<MPI_Request> *g_recvs;        // posted receives, in order
static std::map<uint8_t *, long> *g_free;       // recently freed blocks (for reuse)
static const char *g_fn = "";

void sim_heap_census(long *, long *);
extern "C" void sim_census(SimCensus *c) { *c = C; sim_heap_census(&c->heap, &c->heap_bytes); }

#define BAD(key, ...) sim_fatal("MPI", key, __VA_ARGS__)
static void live(void *p) { g_live->insert(p); }
static void dead(void *p) { g_live->erase(p); }
static bool is_live(const void *p) { return g_live->count((void *)p) > 0; }

static void progress_all();
static int g_inside, g_main_task = -1, g_userop = 0;   // g_userop: inside a user-defined reduction operator (nested calls do not yield)
static struct { const char *fn; long n; } g_calls[160];   // calls of this process by name
static void count_call(const char *fn) { unsigned h = (unsigned)(((uintptr_t)fn >> 2) % 160); for (int i = 0; i < 160; i++, h = (h + 1) % 160) { if (g_calls[h].fn == fn) { g_calls[h].n++; return; } if (!g_calls[h].fn) { g_calls[h].fn = fn; g_calls[h].n = 1; return; } } }
static long g_ropen, g_rhwm;            // most request-based RMA operations not yet locally complete
static long g_hwm;             // most operations issued to one target without a flush in between
struct MpiCall {               // every MPI call is a scheduling point; thread-level rules are checked here
  InSim in_sim; bool counted = false;
  MpiCall(const char *fn, bool need_init = true, bool yield = true) {
    S->n_mpi++; if (g_userop) return; g_fn = fn; count_call(fn);
    if (need_init && (!g_init || g_fini)) BAD("mpi-not-active", "%s called %s", fn, g_fini ? "after MPI_Finalize" : "before MPI_Init");
    if (need_init && g_task != g_main_task && g_level < MPI_THREAD_SERIALIZED) BAD("thread-level", "%s called by a thread that did not initialise MPI (thread level %d)", fn, g_level);
    counted = true; g_inside++;
    if (need_init && g_level < MPI_THREAD_MULTIPLE && g_inside > 1) BAD("thread-level", "%s called while another thread is inside MPI (thread level %d)", fn, g_level);
    if (yield && g_task >= 0) { progress_all(); s_yield(); g_fn = fn; }
  }
  ~MpiCall() { if (counted) g_inside--; }
};
#define ENTER(fn) MpiCall mpi_call_guard(fn)
#define ENTER_LOCAL(fn) MpiCall mpi_call_guard(fn, true, false)

static void ck_comm(MPI_Comm c) {
  if (c == MPI_COMM_NULL) BAD("null-comm", "%s on MPI_COMM_NULL", g_fn);
  if (c != MPI_COMM_WORLD && c != MPI_COMM_SELF && !is_live(c)) BAD("dead-comm", "%s on a freed or invalid communicator", g_fn);
}
static void ck_win(MPI_Win w) { if (w == MPI_WIN_NULL) BAD("null-win", "%s on MPI_WIN_NULL", g_fn); if (!is_live(w)) BAD("dead-win", "%s on a freed or invalid window", g_fn); }
static void ck_dt(MPI_Datatype t, bool committed = true) {
  if (t == MPI_DATATYPE_NULL) BAD("null-type", "%s with MPI_DATATYPE_NULL", g_fn);
  if (t >= &simmpi_dt_1 && false) return;
  if (!t->predefined && !is_live(t)) BAD("dead-type", "%s with a freed or invalid datatype", g_fn);
  if (committed && !t->committed) BAD("uncommitted-type", "%s with an uncommitted datatype", g_fn);
}
static void ck_op(MPI_Op o) { if (o == MPI_OP_NULL) BAD("null-op", "%s with MPI_OP_NULL", g_fn); if (!o->predefined && !is_live(o)) BAD("dead-op", "%s with a freed or invalid operator", g_fn); }
static void ck_rank(MPI_Comm c, int r, bool any) { if (r == MPI_PROC_NULL || (any && r == MPI_ANY_SOURCE)) return; if (r < 0 || r >= c->size) BAD("bad-rank", "%s with rank %d in a communicator of size %d", g_fn, r, c->size); }
static void ck_tag(int t, bool any) { if (any && t == MPI_ANY_TAG) return; if (t < 0) BAD("bad-tag", "%s with tag %d", g_fn, t); }
static void ck_count(long n) { if (n < 0) BAD("negative-count", "%s with count %ld", g_fn, n); }

// ------------------------------------------------------------------ datatypes
static shared_ptr<DTData> mkbase(int n, long size) { auto d = std::make_shared<DTData>(); d->blk.push_back({0, size}); d->ub = d->true_ub = size; d->size = size; d->base = n; d->base_size = (int)size; return d; }
static void init_types() {
#define X(name, ty, n) simmpi_dt_##n.id = n; simmpi_dt_##n.predefined = simmpi_dt_##n.committed = true; simmpi_dt_##n.d = mkbase(n, sizeof(ty));
  SIMMPI_TYPES(X)
#undef X
  struct simmpi_op_s *ops[] = {&simmpi_op_1, &simmpi_op_2, &simmpi_op_3, &simmpi_op_4, &simmpi_op_5, &simmpi_op_6, &simmpi_op_7, &simmpi_op_8, &simmpi_op_9, &simmpi_op_10, &simmpi_op_11, &simmpi_op_12, &simmpi_op_13, &simmpi_op_14};
  for (int i = 0; i < 14; i++) { ops[i]->id = i + 1; ops[i]->predefined = true; ops[i]->commute = true; }
}
static void add_blk(DTData &d, long off, long len) {
  if (!len) return;
  if (!d.blk.empty() && d.blk.back().off + d.blk.back().len == off) d.blk.back().len += len; else d.blk.push_back({off, len});
}
struct Builder {
  shared_ptr<DTData> d = std::make_shared<DTData>(); bool first = true, firstb = true;
  void put(const DTData &o, long off) {
    for (auto &b : o.blk) add_blk(*d, off + b.off, b.len);
    long l = off + o.lb, u = off + o.ub;
    if (first) { d->lb = l; d->ub = u; } else { d->lb = std::min(d->lb, l); d->ub = std::max(d->ub, u); }
    if (o.size) { long tl = off + o.true_lb, tu = off + o.true_ub; if (firstb) { d->true_lb = tl; d->true_ub = tu; } else { d->true_lb = std::min(d->true_lb, tl); d->true_ub = std::max(d->true_ub, tu); } firstb = false; }
    d->size += o.size;
    if (first) { d->base = o.base; d->base_size = o.base_size; } else if (d->base != o.base) d->base = -1;
    first = false;
  }
  void rep(const DTData &o, long off, long n) {
    long ext = o.ub - o.lb;
    if (n > 2 && o.blk.size() == 1 && o.blk[0].len == ext && o.blk[0].off == o.lb && o.size == ext) { // dense fast path
      DTData big = o; big.blk[0].len = ext * n; big.size = o.size * n; big.ub = o.lb + ext * n; big.true_ub = o.true_lb + ext * n; put(big, off); return; }
    for (long i = 0; i < n; i++) put(o, off + i * ext);
  }
  MPI_Datatype fin() { auto *t = new simmpi_dt_s{0, false, false, false, d}; live(t); C.type++; return t; }
};
static long ext(const DTData &d) { return d.ub - d.lb; }
static void ck_old(MPI_Datatype t) { ck_dt(t, false); }
static void pack(const DTData &d, const void *buf, long count, uint8_t *out) {
  long e = ext(d); const uint8_t *b = (const uint8_t *)buf;
  if (d.blk.size() == 1 && d.blk[0].len == e && d.size == e) { if (count) memcpy(out, b + d.blk[0].off, e * count); return; }
  for (long i = 0; i < count; i++) for (auto &k : d.blk) { memcpy(out, b + i * e + k.off, k.len); out += k.len; }
}
static void unpack(const DTData &d, void *buf, long count, const uint8_t *in, long limit = -1) {
  long e = ext(d); uint8_t *b = (uint8_t *)buf; long left = limit < 0 ? d.size * count : limit;
  if (d.blk.size() == 1 && d.blk[0].len == e && d.size == e) { if (left) memcpy(b + d.blk[0].off, in, left); return; }
  for (long i = 0; i < count && left > 0; i++) for (auto &k : d.blk) { long n = std::min(left, k.len); memcpy(b + i * e + k.off, in, n); in += n; left -= n; if (left <= 0) break; }
}
static uint64_t hashbuf(const uint8_t *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; } return h; }

// ------------------------------------------------------------------ reductions
template <class T> static bool red_int(int op, const T *a, T *b, long n) {
  for (long i = 0; i < n; i++) switch (op) {
    case 1: b[i] = std::max(a[i], b[i]); break; case 2: b[i] = std::min(a[i], b[i]); break;
    case 3: b[i] = (T)((unsigned long long)a[i] + (unsigned long long)b[i]); break; case 4: b[i] = (T)((unsigned long long)a[i] * (unsigned long long)b[i]); break;
    case 5: b[i] = a[i] && b[i]; break; case 6: b[i] = a[i] & b[i]; break; case 7: b[i] = a[i] || b[i]; break; case 8: b[i] = a[i] | b[i]; break;
    case 9: b[i] = !a[i] != !b[i]; break; case 10: b[i] = a[i] ^ b[i]; break; case 13: b[i] = a[i]; break; case 14: break; default: return false; }
  return true;
}
template <class T> static bool red_flt(int op, const T *a, T *b, long n) {
  for (long i = 0; i < n; i++) switch (op) { case 1: b[i] = std::max(a[i], b[i]); break; case 2: b[i] = std::min(a[i], b[i]); break; case 3: b[i] = a[i] + b[i]; break; case 4: b[i] = a[i] * b[i]; break; case 13: b[i] = a[i]; break; case 14: break; default: return false; }
  return true;
}
template <class T> static bool red_cpl(int op, const T *a, T *b, long n) {
  for (long i = 0; i < n; i++) switch (op) { case 3: b[i] = a[i] + b[i]; break; case 4: b[i] = a[i] * b[i]; break; case 13: b[i] = a[i]; break; case 14: break; default: return false; }
  return true;
}
template <class T> static bool red_loc(int op, const T *a, T *b, long n) {
  for (long i = 0; i < n; i++) { if (op == 13) b[i] = a[i]; else if (op == 11) { if (a[i].a > b[i].a || (a[i].a == b[i].a && a[i].b < b[i].b)) b[i] = a[i]; } else if (op == 12) { if (a[i].a < b[i].a || (a[i].a == b[i].a && a[i].b < b[i].b)) b[i] = a[i]; } else if (op != 14) return false; }
  return true;
}
// b = a op b for n elements of predefined type `base`; false when the MPI standard does not define it
static bool reduce_base(int base, int op, const void *a, void *b, long n) {
  if ((base == 4 || base == 38 || base == 30) && !(op == 6 || op == 8 || op == 10 || op == 13 || op == 14)) return false;
  switch (base) {
#define I(nn, ty) case nn: return red_int<ty>(op, (const ty *)a, (ty *)b, n);
    I(1, char) I(2, signed char) I(3, unsigned char) I(4, unsigned char) I(5, short) I(6, unsigned short) I(7, int) I(8, unsigned) I(9, long) I(10, unsigned long)
    I(14, long long) I(15, unsigned long long) I(16, int8_t) I(17, int16_t) I(18, int32_t) I(19, int64_t) I(20, uint8_t) I(21, uint16_t) I(22, uint32_t) I(23, uint64_t)
    I(24, intptr_t) I(25, long long) I(26, long long) I(27, unsigned char) I(30, int) I(33, int) I(38, unsigned char)
    case 11: case 34: return red_flt<float>(op, (const float *)a, (float *)b, n);
    case 12: case 35: return red_flt<double>(op, (const double *)a, (double *)b, n);
    case 13: return red_flt<long double>(op, (const long double *)a, (long double *)b, n);
    case 28: case 31: return red_cpl<simmpi_cflt>(op, (const simmpi_cflt *)a, (simmpi_cflt *)b, n);
    case 29: case 32: return red_cpl<simmpi_cdbl>(op, (const simmpi_cdbl *)a, (simmpi_cdbl *)b, n);
    case 36: return red_loc<simmpi_2int>(op, (const simmpi_2int *)a, (simmpi_2int *)b, n);
    case 37: return red_loc<simmpi_dblint>(op, (const simmpi_dblint *)a, (simmpi_dblint *)b, n);
  }
  return false;
}
// combine: b = a op b over count items of datatype
static void reduce_dt(MPI_Op op, MPI_Datatype dt, const uint8_t *a, uint8_t *b, long count) {
  if (op->fn) {
    long e = ext(*dt->d), i = 0;
    while (i < count) {
      long n = count - i; if (S->cfg.seg_reduce && n > 1 && S->rrng.below(3) == 0) n = 1 + S->rrng.below(n);
      void *ta = malloc(n * e ? n * e : 1), *tb = malloc(n * e ? n * e : 1);
      memcpy(ta, a + i * e, n * e); memcpy(tb, b + i * e, n * e);
      int len = (int)n; MPI_Datatype d2 = dt;
      { int sv = g_insim; g_insim = 0; g_userop++; op->fn(ta, tb, &len, &d2); g_userop--; g_insim = sv; }
      memcpy(b + i * e, tb, n * e); free(ta); free(tb); i += n;
    }
    if (!count && S->rrng.below(2)) { int len = 0; MPI_Datatype d2 = dt; char x[8]; g_userop++; op->fn(x, x, &len, &d2); g_userop--; }
    return;
  }
  if (dt->d->base <= 0) BAD("reduce-type", "%s: predefined operator on a mixed datatype", g_fn);
  if (!reduce_base(dt->d->base, op->id, a, b, dt->d->size * count / dt->d->base_size)) BAD("reduce-optype", "%s: operator %d is not defined for predefined type %d", g_fn, op->id, dt->d->base);
}

// ------------------------------------------------------------------ RMA engine
static bool ordered_before(const RmaOp &a, const RmaOp &b, MPI_Win w) {     // must a be applied before b?
  if (a.target != b.target) return false;
  if (!S->cfg.unordered) return true;
  if (a.acc() && b.acc() && !w->sh->unordered_acc) return true;
  return false;
}
enum { BIG_QUEUE = 2048 };             // above this the engine looks at a window of the queue only (linear cost for hundreds of thousands of operations)
static bool can_apply(MPI_Win w, RmaOp &o) {
  if (S->cfg.defer == DEFER_NONE) return true;                    // everything older is already applied
  if (w->q.size() > BIG_QUEUE && w->q.back().get() == &o) return false;   // a new operation behind a very long queue waits its turn
  for (auto &p : w->q) { if (p.get() == &o) return true; if (!p->applied && ordered_before(*p, o, w)) return false; }
  return true;
}
static void snapshot(RmaOp &o) {
  if (o.snapped) return; o.snapped = true;
  if (o.kind == 1 || (o.kind == 3 && o.op == 14)) return;
  o.snap.resize(o.od->size * (long)o.oc + (o.kind == 4 ? o.od->size : 0));
  pack(*o.od, o.org, o.oc, o.snap.data());
  if (o.kind == 4) pack(*o.od, o.cmp, 1, o.snap.data() + o.od->size);
  uint64_t h = hashbuf(o.snap.data(), o.snap.size());
  if (h != o.hash) BAD("origin-modified", "origin buffer of a pending %s (%zu bytes at %p to target %d) was modified or released before local completion", o.kind == 0 ? "put" : "accumulate", o.snap.size(), o.org, o.target);
}
// apply the next piece (all when whole)
static void apply_some(MPI_Win w, RmaOp &o, bool whole) {
  if (o.applied) return;
  snapshot(o);
  WinTarget &t = w->sh->t[o.target]; uint8_t *base = (w->sh->sep ? slab_public : slab_remote)(w->sh->ranks[o.target], t.off) + o.tdisp;
  if (o.kind == 4) { // compare and swap, single element
    o.fetched.assign(base, base + o.td->size);
    if (!memcmp(o.fetched.data(), o.snap.data() + o.td->size, o.td->size)) memcpy(base, o.snap.data(), o.td->size);
    o.applied = true; s_bump(); return;
  }
  long gran = o.acc() ? o.td->base_size : 1;
  if ((o.kind == 1 || o.kind == 3) && o.fetched.empty()) o.fetched.resize(o.total);
  long n = o.total - o.done;
  if (!whole && S->cfg.split && n > gran) { n = gran * (1 + (long)S->rrng.below(n / gran)); }
  long from = o.backwards ? o.total - o.done - n : o.done, to = from + n;
  // walk target blocks
  const DTData &d = *o.td; long e = ext(d), pos = 0;
  auto piece = [&](long toff, long len, long p) { // target bytes [toff,toff+len) correspond to stream [p,p+len)
    long a = std::max(p, from), b = std::min(p + len, to); if (a >= b) return;
    uint8_t *x = base + toff + (a - p); long l = b - a;
    switch (o.kind) {
      case 0: memcpy(x, o.snap.data() + a, l); break;
      case 1: memcpy(o.fetched.data() + a, x, l); break;
      case 3: memcpy(o.fetched.data() + a, x, l); /* fallthrough */
      case 2:
        if (o.op == 14) break;
        if (o.op == 13) { memcpy(x, o.snap.data() + a, l); break; }
        { // element-wise atomic update (aligned temporaries: targets may be unaligned)
          vector<uint8_t> ta(l + 16), tb(l + 16); memcpy(ta.data(), o.snap.data() + a, l); memcpy(tb.data(), x, l);
          if (!reduce_base(d.base, o.op, ta.data(), tb.data(), l / d.base_size)) BAD("acc-optype", "accumulate operator %d is not defined for type %d", o.op, d.base);
          memcpy(x, tb.data(), l);
        }
    }
  };
  if (d.blk.size() == 1 && d.blk[0].len == e && d.size == e) piece(d.blk[0].off, e * (long)o.tc, 0);
  else for (long i = 0; i < o.tc; i++) for (auto &k : d.blk) { if (pos >= to) break; if (pos + k.len > from) piece(i * e + k.off, k.len, pos); pos += k.len; }
  o.done += n; if (o.done >= o.total) o.applied = true;
  s_bump();
}
static void deliver(RmaOp &o) {            // local completion
  if (o.local_done) return;
  if (o.kind == 1 || o.kind == 3) unpack(*o.rd, o.res, o.rc, o.fetched.data());
  if (o.kind == 4) memcpy(o.res, o.fetched.data(), o.fetched.size());
  o.local_done = true; if (o.isreq) g_ropen--;
}
static void apply_with_deps(MPI_Win w, RmaOp &o) { // everything ordered before o first
  for (size_t i = 0; i < w->q.size(); i++) { auto p = w->q[i]; if (p.get() == &o) break; if (!p->applied && ordered_before(*p, o, w)) apply_with_deps(w, *p); }
  while (!o.applied) { apply_some(w, o, !S->cfg.split || S->rrng.below(2)); if (!o.applied && S->cfg.split && S->rrng.below(3) == 0) s_yield(); }
}
static void local_complete(MPI_Win w, shared_ptr<RmaOp> o) {
  if (o->local_done) return;
  if (o->kind == 1 || o->kind >= 3) apply_with_deps(w, *o); else snapshot(*o);
  deliver(*o);
}
static void prune(MPI_Win w) { while (!w->q.empty() && w->q.front()->applied && w->q.front()->local_done) w->q.pop_front();
  if (w->q.size() > w->prune_at) { w->q.erase(std::remove_if(w->q.begin(), w->q.end(), [](const shared_ptr<RmaOp> &p) { return p->applied && p->local_done; }), w->q.end()); w->prune_at = std::max<size_t>(64, 2 * w->q.size()); } }
static void flush_target(MPI_Win w, int target, bool remote) {
  if (target < 0) w->since.clear(); else w->since.erase(target);
  vector<shared_ptr<RmaOp>> ops; for (auto &p : w->q) if (target < 0 || p->target == target) ops.push_back(p);
  if (S->cfg.unordered && ops.size() > 1 && ops.size() <= BIG_QUEUE && S->rrng.below(2)) { for (size_t i = ops.size() - 1; i > 0; i--) std::swap(ops[i], ops[S->rrng.below(i + 1)]); S->n_reordered++; }
  if (ops.size() > BIG_QUEUE) { for (auto &p : ops) { while (!p->applied) apply_some(w, *p, !S->cfg.split || S->rrng.below(2)); deliver(*p); } prune(w); return; }   // in order: everything ordered before is applied already
  for (auto &p : ops) { if (remote) { apply_with_deps(w, *p); deliver(*p); } else local_complete(w, p);
    if (ops.size() > 1 && S->cfg.defer != DEFER_NONE && S->rrng.below(4) == 0) s_yield(); }
  prune(w);
}
// separate memory model: the owner's synchronisation merges what changed in either copy since the last one
static void win_sync_own(MPI_Win w) {
  if (!w->sh->sep) return;
  WinTarget &t = w->sh->t[w->me]; int r = w->sh->ranks[w->me]; uint8_t *p = slab_remote(r, t.off), *q = slab_public(r, t.off), *s = slab_synced(r, t.off);
  for (long i = 0; i < t.size; i++) { if (p[i] != s[i]) q[i] = p[i]; else p[i] = q[i]; s[i] = p[i]; }
  s_bump();
}
static void progress_all() {
  if (!g_wins || S->cfg.defer == DEFER_MAX) return;
  for (auto w : *g_wins) {
    if (w->q.empty()) continue;
    if (w->q.size() > BIG_QUEUE) { if (S->rrng.below(64) == 0) for (size_t i = 0; i < 32; i++) { auto o = w->q[i]; if (!o->applied && can_apply(w, *o)) apply_some(w, *o, false); } continue; }
    RmaOp *held[SIM_MAXR] = {}, *held_acc[SIM_MAXR] = {};           // an older unapplied operation (accumulate) to each target: same decision as can_apply
    for (size_t i = 0; i < w->q.size(); i++) { auto o = w->q[i]; if (o->applied) continue; int t = o->target;
      bool can = !((held[t] && ordered_before(*held[t], *o, w)) || (held_acc[t] && ordered_before(*held_acc[t], *o, w)));
      if (can && S->rrng.below(4) == 0) { apply_some(w, *o, false); if (i) S->n_reordered++; }
      if (!o->applied) (o->acc() ? held_acc : held)[t] = o.get(); }
    for (auto &o : w->q) if (o->applied && !o->local_done && o->kind != 0 && o->kind != 2 && S->rrng.below(4) == 0) deliver(*o);
  }
}
static void ck_access(const void *p, long n, bool write, const char *what) {
#ifdef SIM_ASAN
  if (n > 0) { void *bad = __asan_region_is_poisoned((void *)p, n); if (bad) BAD("buffer-invalid", "%s: %s buffer %p+%ld is not addressable (first bad byte %p)", g_fn, what, p, n, bad); }
#endif
  (void)p; (void)n; (void)write; (void)what;
}
static void ck_buf(const void *buf, long count, const DTData &d, bool write, const char *what) {
  if (count <= 0 || d.size == 0) return;
  if (!buf) { if (d.true_lb == 0) BAD("null-buffer", "%s: NULL %s buffer with count %ld", g_fn, what, count); return; }
#ifdef SIM_ASAN
  long e = ext(d); 
  if (d.blk.size() == 1 && d.blk[0].len == e && d.size == e) ck_access((const uint8_t *)buf + d.blk[0].off, e * count, write, what);
  else for (long i = 0; i < count; i++) for (auto &k : d.blk) ck_access((const uint8_t *)buf + i * e + k.off, k.len, write, what);
#endif
}
static void scribble(void *buf, long count, const DTData &d) {
  if (!S->cfg.scribble) return;
  vector<uint8_t> g(d.size * count); for (size_t i = 0; i < g.size(); i++) g[i] = (uint8_t)(0xEE ^ (i * 11));
  unpack(d, buf, count, g.data());
}
static shared_ptr<RmaOp> rma(int kind, const void *org, int oc, MPI_Datatype od, void *res, int rc, MPI_Datatype rd, int target, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Op op, MPI_Win w, const void *cmp = nullptr) {
  ck_win(w); ck_count(oc); ck_count(tc); ck_count(rc); S->n_rma++;
  auto o = std::make_shared<RmaOp>(); o->kind = kind;
  if (target == MPI_PROC_NULL) { o->applied = o->local_done = true; return o; }
  if (target < 0 || target >= w->sh->n) BAD("rma-bad-rank", "%s: target rank %d in a window of %d", g_fn, target, w->sh->n);
  if (!w->lockall && !w->lock[target] && !w->fence_epoch) BAD("rma-no-epoch", "%s to target %d outside any access epoch", g_fn, target);
  ck_dt(td); o->td = td->d; o->tc = tc; o->target = target; o->op = op ? op->id : 13;
  if (op && (!op->predefined || op->fn)) BAD("rma-user-op", "%s with a user-defined operator", g_fn);
  // promises made through window info hints
  if (kind >= 2) {
    auto h = [&](const char *k) { auto it = w->info.find(k); return it == w->info.end() ? std::string() : it->second; };
    std::string mb = h("accumulate_max_bytes"), nd = h("accumulate_noncontig_dtype"); long lim = mb.empty() ? -1 : atol(mb.c_str());
    auto holes = [](MPI_Datatype t, int n) { return t && (t->d->blk.size() > 1 || (n > 1 && ext(*t->d) != t->d->size)); };
    if (lim >= 0 && td && o->op != 14 && (long)tc * td->d->size > lim) BAD("hint-acc-max-bytes", "%s of %ld bytes in a window created with accumulate_max_bytes=%ld", g_fn, (long)tc * td->d->size, lim);
    if (nd == "false" && (holes(td, tc) || holes(od, oc) || holes(rd, rc))) BAD("hint-acc-noncontig", "%s with a noncontiguous datatype in a window created with accumulate_noncontig_dtype=false", g_fn);
  }
  WinTarget &t = w->sh->t[target];
  if (disp < 0) BAD("rma-neg-disp", "%s: negative target displacement %ld", g_fn, (long)disp);
  o->tdisp = (long)disp * t.disp; o->total = td->d->size * (long)tc;
  bool has_org = (kind != 1) && !(kind == 3 && op->id == 14);
  if (has_org) { ck_dt(od); o->org = org; o->oc = oc; o->od = od->d; ck_buf(org, oc, *od->d, false, "origin");
    if (od->d->size * (long)oc != o->total) BAD("rma-size-mismatch", "%s: origin %ld bytes, target %ld bytes", g_fn, od->d->size * (long)oc, o->total);
    if (kind >= 2 && od->d->base != td->d->base) BAD("rma-type-mismatch", "%s: origin element type %d, target element type %d", g_fn, od->d->base, td->d->base); }
  if (kind == 1 || kind == 3) { ck_dt(rd); o->res = res; o->rc = rc; o->rd = rd->d; ck_buf(res, rc, *rd->d, true, "result");
    if (rd->d->size * (long)rc != o->total) BAD("rma-size-mismatch", "%s: result %ld bytes, target %ld bytes", g_fn, rd->d->size * (long)rc, o->total); }
  if (kind == 4) { o->res = res; o->cmp = cmp; ck_buf(res, 1, *td->d, true, "result"); ck_buf(cmp, 1, *td->d, false, "compare"); }
  if (kind >= 2) {
    if (td->d->base <= 0) BAD("acc-mixed-type", "%s with a datatype of mixed elements", g_fn);
    if (kind != 4 && o->op != 13 && o->op != 14) { uint8_t a[64] = {0}, b[64] = {0}; if (!reduce_base(td->d->base, o->op, a, b, 1)) BAD("acc-optype", "%s: operator %d is not defined for predefined type %d", g_fn, o->op, td->d->base); }
  }
  if (o->total > 0) {
    long lo = o->tdisp + std::min(0l, 0l) + td->d->true_lb, hi = o->tdisp + (tc - 1) * ext(*td->d) + td->d->true_ub;
    if (ext(*td->d) < 0) { lo = o->tdisp; hi = o->tdisp; }
    if (lo < 0 || hi > t.size) BAD("rma-out-of-bounds", "%s: target bytes [%ld,%ld) outside the window of rank %d (size %ld)", g_fn, lo, hi, target, t.size);
  }
  if (kind >= 2 && kind != 4 && o->op != 13 && o->op != 14 && o->total) {
    // target type must not contain overlapping entries
    if (td->d->blk.size() > 1) { vector<Block> b = td->d->blk; std::sort(b.begin(), b.end(), [](const Block &x, const Block &y) { return x.off < y.off; }); for (size_t i = 1; i < b.size(); i++) if (b[i].off < b[i - 1].off + b[i - 1].len) BAD("acc-overlap-type", "%s: target datatype has overlapping entries", g_fn); }
  } else if (kind == 0 && td->d->blk.size() > 1) {
    vector<Block> b = td->d->blk; std::sort(b.begin(), b.end(), [](const Block &x, const Block &y) { return x.off < y.off; }); for (size_t i = 1; i < b.size(); i++) if (b[i].off < b[i - 1].off + b[i - 1].len) BAD("put-overlap-type", "%s: target datatype has overlapping entries", g_fn);
  }
  if (kind == 1 && rd->d->blk.size() > 1) {
    vector<Block> b = rd->d->blk; std::sort(b.begin(), b.end(), [](const Block &x, const Block &y) { return x.off < y.off; }); for (size_t i = 1; i < b.size(); i++) if (b[i].off < b[i - 1].off + b[i - 1].len) BAD("get-overlap-type", "%s: origin datatype has overlapping entries", g_fn);
  }
  if (has_org || kind == 4) { vector<uint8_t> s(o->od->size * (long)oc + (kind == 4 ? o->od->size : 0)); pack(*o->od, org, oc, s.data()); if (kind == 4) pack(*o->od, cmp, 1, s.data() + o->od->size); o->hash = hashbuf(s.data(), s.size()); }
  if (kind == 1 || kind == 3) scribble(res, rc, *rd->d);
  o->backwards = S->cfg.split && S->rrng.below(2);
  if (!o->total) { o->applied = true; o->snapped = true; }
  w->q.push_back(o); { long k = ++w->since[target]; if (k > g_hwm) g_hwm = k; }
  if (S->cfg.defer == DEFER_NONE || (S->cfg.defer == DEFER_RANDOM && S->rrng.below(3) == 0)) { if (can_apply(w, *o)) { apply_some(w, *o, S->cfg.defer == DEFER_NONE); if (o->applied && S->rrng.below(2) && (o->kind == 1 || o->kind >= 3)) deliver(*o); } }
  if (!o->applied) S->n_deferred++;
  prune(w);
  return o;
}
static MPI_Request mkreq(int kind) { auto *r = new simmpi_req_s(); r->kind = kind; live(r); C.req++; r->st.MPI_SOURCE = MPI_ANY_SOURCE; r->st.MPI_TAG = MPI_ANY_TAG; return r; }

// ------------------------------------------------------------------ collectives engine
enum { K_BARRIER = 1, K_BCAST, K_ALLREDUCE, K_REDUCE, K_ALLGATHER, K_GATHER, K_SCATTER, K_ALLTOALL, K_SCAN, K_EXSCAN, K_DUP, K_SPLIT, K_CREATE, K_WINCREATE, K_WINFREE, K_LEADER, K_MERGE, K_FINALIZE, K_RSB, K_FENCE, K_FREE, K_CGROUP };
static const char *kname(int k) { static const char *n[] = {"?", "Barrier", "Bcast", "Allreduce", "Reduce", "Allgather", "Gather", "Scatter", "Alltoall", "Scan", "Exscan", "Comm_dup", "Comm_split", "Comm_create", "Win_create/allocate", "Win_free", "Intercomm_create", "Intercomm_merge", "Finalize", "Reduce_scatter", "Win_fence", "Comm_free", "Comm_create_group"}; return n[k]; }
static int slot_index(MPI_Comm c) { return c->inter ? (c->side ? SIM_MAXR / 2 : 0) + c->rank : c->rank; }
static CollSlot *coll_enter(MPI_Comm c, int kind, int root, long sig, const void *data, size_t len, const long *arg = nullptr, int narg = 0) {
  Ctx *x = c->ctx; int me = slot_index(c); uint64_t seq = x->seq[me]++; S->n_coll++;
  CollSlot **pp = &x->slots; while (*pp && (*pp)->seq != seq) pp = &(*pp)->next;
  CollSlot *s = *pp;
  if (!s) { s = (CollSlot *)ar_alloc(sizeof(CollSlot)); memset(s, 0, sizeof *s); s->seq = seq; s->kind = kind; s->root = root; s->sig = sig; s->expected = x->inter ? x->n + x->nB : x->n; s->firstrank = g_rank; *pp = s; }
  else {
    if (s->kind != kind) BAD("collective-mismatch", "rank %d calls MPI %s while rank %d calls MPI %s on the same communicator", g_rank, kname(kind), s->firstrank, kname(s->kind));
    if (s->root != root) BAD("collective-root-mismatch", "%s: root %d here, %d at rank %d", g_fn, root, s->root, s->firstrank);
    if (sig >= 0 && s->sig >= 0 && s->sig != sig) BAD("collective-size-mismatch", "%s: signature %ld here, %ld at rank %d", g_fn, sig, s->sig, s->firstrank);
  }
  if (data || len) s->contrib[me] = blob_new(data, len);
  for (int i = 0; i < narg; i++) s->arg[me][i] = arg[i];
  s->has[me] = 1; s->arrived++; s_bump();
  return s;
}
static void coll_leave(MPI_Comm c, CollSlot *s) {
  if (++s->left < s->expected) return;
  Ctx *x = c->ctx; CollSlot **pp = &x->slots; while (*pp && *pp != s) pp = &(*pp)->next; if (*pp) *pp = s->next;
  for (int i = 0; i < SIM_MAXR; i++) blob_free(s->contrib[i]);
  blob_free(s->result); ar_free(s, sizeof *s);
}
static void coll_all(CollSlot *s) { s_block(g_fn, [&] { return s->arrived == s->expected; }); }
static Ctx *ctx_new(const int *ranks, int n, const int *rb = nullptr, int nb = 0) {
  Ctx *x = (Ctx *)ar_alloc(sizeof(Ctx)); memset(x, 0, sizeof *x); x->id = S->next_ctx++; x->n = n; x->nB = nb; x->inter = rb != nullptr;
  for (int i = 0; i < n; i++) x->ranks[i] = ranks[i]; for (int i = 0; i < nb; i++) x->ranksB[i] = rb[i]; return x;
}
static MPI_Comm comm_new(Ctx *x, bool inter = false, int side = 0) {
  auto *c = new simmpi_comm_s(); c->ctx = x; c->inter = inter; c->side = side; c->rank = -1;
  const int *r = inter && side ? x->ranksB : x->ranks; int n = inter && side ? x->nB : x->n;
  for (int i = 0; i < n; i++) if (r[i] == g_rank) c->rank = i;
  c->size = n; live(c); C.comm++; return c;
}
void simmpi_rank_start() {
  g_live = new std::set<void *>; g_mem = new std::map<uint8_t *, long>; g_wins = new std::set<MPI_Win>; g_recvs = new std::deque<MPI_Request>; g_free = new std::map<uint8_t *, long>;
  init_types(); g_init = g_fini = 0; memset(&C, 0, sizeof C);
  simmpi_group_empty.builtin = true;
}
static Ctx *g_world_ctx, *g_self_ctx;
static void world_setup() {
  if (!S->world) { int r[SIM_MAXR]; for (int i = 0; i < S->cfg.nranks; i++) r[i] = i; S->world = ctx_new(r, S->cfg.nranks); }
  g_world_ctx = S->world; int me = g_rank; g_self_ctx = ctx_new(&me, 1);
  simmpi_comm_world = simmpi_comm_s(); simmpi_comm_world.ctx = g_world_ctx; simmpi_comm_world.rank = g_rank; simmpi_comm_world.size = S->cfg.nranks; simmpi_comm_world.builtin = true;
  simmpi_comm_self = simmpi_comm_s(); simmpi_comm_self.ctx = g_self_ctx; simmpi_comm_self.rank = 0; simmpi_comm_self.size = 1; simmpi_comm_self.builtin = true;
}

// ------------------------------------------------------------------ point to point engine
static int world_of(MPI_Comm c, int r) { return c->ctx->ranks[r]; }
static int comm_rank_of(MPI_Comm c, int world) { for (int i = 0; i < c->ctx->n; i++) if (c->ctx->ranks[i] == world) return i; return -1; }
static Msg *send_start(const void *buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm c, bool sync) {
  ck_comm(c); ck_dt(dt); ck_count(count); ck_rank(c, dest, false); ck_tag(tag, false); ck_buf(buf, count, *dt->d, false, "send"); S->n_p2p++;
  if (dest == MPI_PROC_NULL) return nullptr;
  Msg *m = (Msg *)ar_alloc(sizeof(Msg)); memset(m, 0, sizeof *m); m->ctx = c->ctx->id; m->src = g_rank; m->tag = tag;
  m->b = blob_new(nullptr, dt->d->size * (long)count); pack(*dt->d, buf, count, m->b->data);
  m->sync = sync || S->cfg.send_mode == 0 || (S->cfg.send_mode == 2 && S->rrng.below(2));
  m->visible = (int)S->rrng.below(4);
  Msg **pp = &S->inbox[world_of(c, dest)]; while (*pp) pp = &(*pp)->next; *pp = m; s_bump();
  return m;
}
static void msg_release(Msg *m) { blob_free(m->b); ar_free(m, sizeof *m); }
// find the earliest matching message of each source, choose one source at random
static Msg *match(MPI_Comm c, int src, int tag, bool remove) {
  Msg *cand[SIM_MAXR] = {0}; int n = 0; bool seen[SIM_MAXR] = {0};
  for (Msg *m = S->inbox[g_rank]; m; m = m->next) {
    if (m->matched || m->ctx != c->ctx->id) continue;
    if (tag != MPI_ANY_TAG && m->tag != tag) continue;
    if (src != MPI_ANY_SOURCE && world_of(c, src) != m->src) continue;
    if (seen[m->src]) continue; seen[m->src] = true; cand[n++] = m;
  }
  if (!n) return nullptr;
  Msg *m = cand[S->rrng.below(n)];
  if (remove) { m->matched = 1; Msg **pp = &S->inbox[g_rank]; while (*pp != m) pp = &(*pp)->next; *pp = m->next; m->next = nullptr; s_bump(); }
  return m;
}
static void recv_take(Msg *m, void *buf, int count, const DTData &d, MPI_Comm c, MPI_Status *st) {
  long cap = d.size * (long)count;
  if ((long)m->b->len > cap) BAD("truncate", "%s: message of %lu bytes from rank %d tag %d into a buffer of %ld bytes", g_fn, (unsigned long)m->b->len, m->src, m->tag, cap);
  unpack(d, buf, count, m->b->data, (long)m->b->len);
  if (st) { st->MPI_SOURCE = comm_rank_of(c, m->src); st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->sim_bytes = (long)m->b->len; st->sim_cancelled = 0; }
  m->consumed = 1; bool sync = m->sync; if (!sync) msg_release(m);   // synchronous senders release it themselves
  s_bump();
}
static void recv_progress() {
  for (size_t i = 0; i < g_recvs->size();) {
    MPI_Request r = (*g_recvs)[i]; Msg *m = match(r->comm, r->src, r->tag, true);
    if (m) { recv_take(m, r->buf, r->count, *r->dt, r->comm, &r->st); r->done = true; g_recvs->erase(g_recvs->begin() + i); } else i++;
  }
}
static bool coll_ready(MPI_Request r);
static void coll_finish(MPI_Request r);
static bool req_ready(MPI_Request r) {
  switch (r->kind) {
    case 1: return r->op->local_done;
    case 2: return r->done || !r->m || !r->m->sync || r->m->consumed;
    case 3: if (!r->done) recv_progress(); return r->done;
    case 4: return r->done || coll_ready(r);
    case 5: return r->done || r->fready();
  }
  return true;
}
static void req_finish(MPI_Request *rp, MPI_Status *st) {
  MPI_Request r = *rp;
  if (r->kind == 4 && !r->done) { coll_finish(r); r->done = true; }
  if (r->kind == 5 && !r->done) { r->ffin(); r->done = true; }
  if (r->kind == 2 && r->m && r->m->sync) { msg_release(r->m); r->m = nullptr; }
  if (st) *st = r->st;
  dead(r); C.req--; delete r; *rp = MPI_REQUEST_NULL;
}
static void ck_req(MPI_Request r) { if (!is_live(r)) BAD("dead-request", "%s on a completed or invalid request", g_fn); }
static void req_wait(MPI_Request *rp, MPI_Status *st) {
  if (*rp == MPI_REQUEST_NULL) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->sim_bytes = 0; } return; }
  ck_req(*rp);
  if ((*rp)->kind == 1) { if ((*rp)->win && is_live((*rp)->win)) local_complete((*rp)->win, (*rp)->op); if (!(*rp)->op->local_done) BAD("request-after-winfree", "%s on a request of a freed window", g_fn); }
  else s_block(g_fn, [&] { return req_ready(*rp); });
  req_finish(rp, st);
}
static bool req_test(MPI_Request *rp, MPI_Status *st) {
  if (*rp == MPI_REQUEST_NULL) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->sim_bytes = 0; } return true; }
  ck_req(*rp); MPI_Request r = *rp;
  if (r->kind == 1 && !r->op->local_done && (++r->tests > 6 || S->rrng.below(3) == 0)) local_complete(r->win, r->op);
  if (!req_ready(r)) return false;
  req_finish(rp, st); return true;
}
static bool peek_test(MPI_Request r) { if (r == MPI_REQUEST_NULL) return true; ck_req(r); if (r->kind == 1 && !r->op->local_done && (++r->tests > 6 || S->rrng.below(3) == 0)) local_complete(r->win, r->op); return req_ready(r); }

static bool coll_ready(MPI_Request r) {
  CollSlot *s = r->slot;
  if (r->ckind == K_BCAST) return r->ci == s->root || s->has[s->root];
  return s->arrived == s->expected;
}
static void combine(MPI_Op op, MPI_Datatype dt, CollSlot *s, int lo, int hi, long count, vector<uint8_t> &out) {   // contributions of slots [lo,hi]
  vector<vector<uint8_t>> v;
  for (int i = lo; i <= hi; i++) v.emplace_back(s->contrib[i]->data, s->contrib[i]->data + s->contrib[i]->len);
  while (v.size() > 1) {
    size_t a, b;
    if (op->commute) { a = S->rrng.below(v.size()); b = S->rrng.below(v.size() - 1); if (b >= a) b++; }
    else { a = S->rrng.below(v.size() - 1); b = a + 1; }
    reduce_dt(op, dt, v[a].data(), v[b].data(), count);
    v.erase(v.begin() + a);
  }
  out = v[0];
}
static void ck_red(MPI_Op op, MPI_Datatype dt, long count, const void *sb, void *rb) {
  ck_op(op); ck_dt(dt); ck_count(count);
  if (sb == rb && sb && count && sb != MPI_IN_PLACE) BAD("collective-alias", "%s: send and receive buffer are the same", g_fn);
  const DTData &d = *dt->d;
  if (op->fn) { if (!(d.blk.size() <= 1 && d.size == ext(d))) BAD("HARNESS-user-op", "%s: user operator on a non-contiguous type is not modelled", g_fn); return; }
  if (d.base <= 0) BAD("reduce-type", "%s: predefined operator on a mixed datatype", g_fn);
  uint8_t a[64] = {0}, b[64] = {0};
  if (!reduce_base(d.base, op->id, a, b, 1) || op->id > 12) BAD("reduce-optype", "%s: operator %d is not defined for predefined type %d", g_fn, op->id, d.base);
}
static void coll_finish(MPI_Request r) {
  CollSlot *s = r->slot;
  if (r->ckind == K_BCAST && r->ci != s->root) unpack(*r->dt, r->buf, r->count, s->contrib[s->root]->data);
  if (r->ckind == K_ALLREDUCE && s->result) unpack(*r->dt, r->buf, r->count, s->result->data);
  coll_leave(r->comm, s);
}
static vector<uint8_t> packed(const void *b, long count, const DTData &d) { vector<uint8_t> v(d.size * count); if (count) pack(d, b, count, v.data()); return v; }
static bool sync_now() { return S->cfg.sync_bcast == 1 || (S->cfg.sync_bcast == 2 && S->rrng.below(2)); }
static void null_status(MPI_Status *st) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->sim_bytes = 0; st->sim_cancelled = 0; } }

// ------------------------------------------------------------------ MPI memory
#ifdef SIM_TSAN
extern "C" void __tsan_acquire(void *), __tsan_release(void *); static char g_mem_sync;      // as the lock of a real allocator orders free and reuse
#endif
static uint8_t *mem_alloc(long n) {
  if (n < 0) BAD("bad-size", "%s with size %ld", g_fn, n);
  long n0 = n; if (n < 8) n = 8;      // distinct addresses even for empty blocks
  long al = S->cfg.align < 8 ? 8 : S->cfg.align, gap = S->cfg.gap;
  uint64_t lo = (uint64_t)slab_local_base() + 64, end = (uint64_t)slab_local_base() + S->cfg.slab;
  uint64_t best = 0; bool first = S->rrng.below(2);
  uint64_t cur = (lo + al - 1) / al * al;
  for (auto &k : *g_mem) {
    if (cur + n + gap <= (uint64_t)k.first) { best = cur; if (first) break; }
    cur = ((uint64_t)k.first + (k.second ? k.second : 8) + gap + al - 1) / al * al;
  }
  if (!(first && best) && cur + n + gap <= end) best = cur;
  if (!best) sim_fatal("HARNESS", "slab-exhausted", "slab exhausted allocating %ld bytes", n);
  n = n0; uint8_t *p = (uint8_t *)best; (*g_mem)[p] = n; C.mem++;
#ifdef SIM_TSAN
  __tsan_acquire(&g_mem_sync);
#endif
#ifdef SIM_ASAN
  if (S->cfg.slab <= (256ull << 20)) __asan_unpoison_memory_region(p, n);
#endif
  long g = n > 65536 ? 65536 : n; for (long i = 0; i < g; i++) p[i] = (uint8_t)(0xC3 ^ (i * 29));
  return p;
}
static void mem_free(uint8_t *p) {
  auto it = g_mem->find(p); if (it == g_mem->end()) BAD("free-invalid", "%s of %p, which MPI did not allocate or which was already freed", g_fn, p);
  long n = it->second, g = n > 65536 ? 65536 : n; memset(p, 0xDD, g);
#ifdef SIM_ASAN
  if (S->cfg.slab <= (256ull << 20)) __asan_poison_memory_region((void *)((uintptr_t)p & ~7ul), ((n + 7) & ~7l));
#endif
  g_mem->erase(it); C.mem--;
#ifdef SIM_TSAN
  __tsan_release(&g_mem_sync);
#endif
}

extern "C" {
int sim_info_lookup(const char *key, char *out, int n) { for (auto w : *g_wins) { auto it = w->info.find(key); if (it != w->info.end()) { snprintf(out, n, "%s", it->second.c_str()); return 0; } } return -1; }
long sim_calls(const char *fn) { long n = 0; for (auto &c : g_calls) if (c.fn && !strcmp(c.fn, fn)) n += c.n; return n; }
long sim_rreq_hwm() { return g_rhwm; }
long sim_rma_hwm(int reset) { long h = g_hwm; if (reset) { g_hwm = 0; for (auto w : *g_wins) w->since.clear(); } return h; }
int sim_nwins() { return g_wins ? (int)g_wins->size() : 0; }

// ------------------------------------------------------------------ environment
static void do_init(const char *fn, int level) {
  if (g_init) BAD("double-init", "%s called twice", fn);
  MpiCall call(fn, false, true);
  g_init = 1; g_level = std::min(level, S->cfg.thread_level); g_main_task = g_task; world_setup(); C.comm = C.group = C.type = C.req = C.op = C.info = C.win = C.mem = 0;
}
int MPI_Init(int *, char ***) { do_init("MPI_Init", MPI_THREAD_SINGLE); return 0; }
int MPI_Init_thread(int *, char ***, int req, int *prov) { do_init("MPI_Init_thread", req); *prov = g_level; return 0; }
int MPI_Initialized(int *f) { *f = g_init; return 0; }
int MPI_Finalized(int *f) { *f = g_fini; return 0; }
int MPI_Query_thread(int *l) { ENTER_LOCAL("MPI_Query_thread"); *l = g_level; return 0; }
int MPI_Is_thread_main(int *f) { *f = g_task == g_main_task; return 0; }
int MPI_Finalize(void) {
  ENTER("MPI_Finalize");
  if (!g_wins->empty()) sim_report("MPI", "finalize-live-window", "MPI_Finalize with %zu window(s) not freed", g_wins->size());
  CollSlot *s = coll_enter(MPI_COMM_WORLD, K_FINALIZE, -1, -1, nullptr, 0); coll_all(s); coll_leave(MPI_COMM_WORLD, s);
  g_fini = 1; S->ranks[g_rank].finalized = 1; C.heap = C.heap_bytes = 0; sim_census(&S->ranks[g_rank].census); return 0;
}
int MPI_Abort(MPI_Comm, int code) {
  g_insim++; if (!S->aborted) { S->aborted = 1; S->abort_code = code; S->abort_rank = g_rank; } S->dead = 1; fflush(NULL); _exit(74);
}
static double g_wt;
double MPI_Wtime(void) { g_wt += 0.02; return g_wt + S->steps * 1e-6; }   // every call takes simulated time, so timed spin loops end
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char *s, int *n) { const char *v = getenv("SIM_LIBVER"); *n = snprintf(s, MPI_MAX_LIBRARY_VERSION_STRING, "%s", v ? v : "simmpi 1.0 (verification)"); return 0; }
int MPI_Get_processor_name(char *s, int *n) { *n = snprintf(s, MPI_MAX_PROCESSOR_NAME, "simnode"); return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }
int MPI_Error_string(int e, char *s, int *n) { *n = snprintf(s, MPI_MAX_ERROR_STRING, "error %d", e); return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *pp) { ENTER_LOCAL("MPI_Alloc_mem"); *(void **)pp = mem_alloc(n); return 0; }
int MPI_Free_mem(void *p) { ENTER_LOCAL("MPI_Free_mem");
  for (auto w : *g_wins) if (w->size > 0 && (uint8_t *)p <= (uint8_t *)w->base && g_mem->count((uint8_t *)p) && (uint8_t *)w->base < (uint8_t *)p + (*g_mem)[(uint8_t *)p]) BAD("free-under-window", "MPI_Free_mem of memory still exposed through a live window");
  if (p == nullptr && false) return 0;
  mem_free((uint8_t *)p); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler) { ENTER_LOCAL("MPI_Comm_set_errhandler"); ck_comm(c); return 0; }
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler *e) { ENTER_LOCAL("MPI_Comm_get_errhandler"); ck_comm(c); *e = MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Win_set_errhandler(MPI_Win w, MPI_Errhandler) { ENTER_LOCAL("MPI_Win_set_errhandler"); ck_win(w); return 0; }
int MPI_Errhandler_free(MPI_Errhandler *e) { *e = 0; return 0; }
int MPI_Pcontrol(const int, ...) { return 0; }

// ------------------------------------------------------------------ info
static void ck_info(MPI_Info i) { if (i == MPI_INFO_NULL || !is_live(i)) BAD("dead-info", "%s on a null, freed or invalid info object", g_fn); }
int MPI_Info_create(MPI_Info *i) { ENTER_LOCAL("MPI_Info_create"); *i = new simmpi_info_s(); live(*i); C.info++; return 0; }
int MPI_Info_free(MPI_Info *i) { ENTER_LOCAL("MPI_Info_free"); ck_info(*i); dead(*i); delete *i; *i = MPI_INFO_NULL; C.info--; return 0; }
int MPI_Info_set(MPI_Info i, const char *k, const char *v) { ENTER_LOCAL("MPI_Info_set"); ck_info(i); if (strlen(k) > MPI_MAX_INFO_KEY || strlen(v) > MPI_MAX_INFO_VAL || !*k) BAD("info-length", "MPI_Info_set(%s)", k); i->kv[k] = v; S->ranks[g_rank].info_sets++; return 0; }
int MPI_Info_get(MPI_Info i, const char *k, int n, char *v, int *f) { ENTER_LOCAL("MPI_Info_get"); ck_info(i); auto it = i->kv.find(k); *f = it != i->kv.end(); if (*f) { strncpy(v, it->second.c_str(), n); v[n] = 0; } return 0; }
int MPI_Info_dup(MPI_Info i, MPI_Info *o) { ENTER_LOCAL("MPI_Info_dup"); ck_info(i); *o = new simmpi_info_s(*i); live(*o); C.info++; return 0; }
int MPI_Info_delete(MPI_Info i, const char *k) { ENTER_LOCAL("MPI_Info_delete"); ck_info(i); i->kv.erase(k); return 0; }
int MPI_Info_get_nkeys(MPI_Info i, int *n) { ENTER_LOCAL("MPI_Info_get_nkeys"); ck_info(i); *n = (int)i->kv.size(); return 0; }

// ------------------------------------------------------------------ groups and communicators
static MPI_Group group_new(const vector<int> &r) { auto *g = new simmpi_group_s(); g->r = r; live(g); C.group++; return g; }
static void ck_group(MPI_Group g) { if (g == MPI_GROUP_NULL) BAD("null-group", "%s on MPI_GROUP_NULL", g_fn); if (g != MPI_GROUP_EMPTY && !is_live(g)) BAD("dead-group", "%s on a freed or invalid group", g_fn); }
int MPI_Comm_rank(MPI_Comm c, int *r) { ENTER_LOCAL("MPI_Comm_rank"); ck_comm(c); *r = c->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { ENTER_LOCAL("MPI_Comm_size"); ck_comm(c); *n = c->size; return 0; }
int MPI_Comm_remote_size(MPI_Comm c, int *n) { ENTER_LOCAL("MPI_Comm_remote_size"); ck_comm(c); *n = c->side ? c->ctx->n : c->ctx->nB; return 0; }
int MPI_Comm_test_inter(MPI_Comm c, int *f) { ENTER_LOCAL("MPI_Comm_test_inter"); ck_comm(c); *f = c->inter; return 0; }
static vector<int> ranks_of(MPI_Comm c) { const int *r = c->inter && c->side ? c->ctx->ranksB : c->ctx->ranks; return vector<int>(r, r + c->size); }
static int cmp_ranks(const vector<int> &a, const vector<int> &b) { if (a == b) return MPI_IDENT; vector<int> x = a, y = b; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y ? MPI_SIMILAR : MPI_UNEQUAL; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { ENTER_LOCAL("MPI_Comm_compare"); ck_comm(a); ck_comm(b); if (a == b) *r = MPI_IDENT; else { *r = cmp_ranks(ranks_of(a), ranks_of(b)); if (*r == MPI_IDENT) *r = MPI_CONGRUENT; } return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
  ENTER("MPI_Comm_dup"); ck_comm(c); if (c->inter) BAD("HARNESS-inter-dup", "dup of an intercommunicator is not modelled");
  CollSlot *s = coll_enter(c, K_DUP, -1, -1, nullptr, 0); coll_all(s);
  if (!s->state) { s->state = 1; *(Ctx **)&s->out[0][0] = ctx_new(c->ctx->ranks, c->ctx->n); }
  Ctx *x = *(Ctx **)&s->out[0][0]; coll_leave(c, s); *o = comm_new(x); return 0;
}
int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info, MPI_Comm *o) { return MPI_Comm_dup(c, o); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) {
  ENTER("MPI_Comm_create"); ck_comm(c); ck_group(g); vector<int> all = ranks_of(c);
  for (int r : g->r) if (std::find(all.begin(), all.end(), r) == all.end()) BAD("comm-create-group", "MPI_Comm_create: process %d of the group is not in the communicator", r);
  CollSlot *s = coll_enter(c, K_CREATE, -1, -1, g->r.data(), g->r.size() * sizeof(int)); coll_all(s);
  int me = slot_index(c);
  bool in = std::find(g->r.begin(), g->r.end(), g_rank) != g->r.end();
  if (in) { // MPI requires every member of a group to pass that same group
    for (int r : g->r) { int k = (int)(std::find(all.begin(), all.end(), r) - all.begin()); Blob *b = s->contrib[k]; if (b->len != g->r.size() * sizeof(int) || memcmp(b->data, g->r.data(), b->len)) BAD("comm-create-mismatch", "MPI_Comm_create: processes %d and %d pass different groups", g_rank, r); }
    int lead = (int)(std::find(all.begin(), all.end(), g->r[0]) - all.begin());
    if (!s->out[lead][0]) *(Ctx **)&s->out[lead][0] = ctx_new(g->r.data(), (int)g->r.size());
    Ctx *x = *(Ctx **)&s->out[lead][0]; coll_leave(c, s); *o = comm_new(x);
  } else { coll_leave(c, s); *o = MPI_COMM_NULL; }
  (void)me; return 0;
}
static int do_split(MPI_Comm c, int color, int key, MPI_Comm *o) {
  long a[2] = {color, key}; if (color < 0 && color != MPI_UNDEFINED) BAD("split-color", "MPI_Comm_split with colour %d", color);
  CollSlot *s = coll_enter(c, K_SPLIT, -1, -1, nullptr, 0, a, 2); coll_all(s);
  if (color == MPI_UNDEFINED) { coll_leave(c, s); *o = MPI_COMM_NULL; return 0; }
  vector<std::pair<long, int>> m; for (int i = 0; i < c->size; i++) if (s->arg[i][0] == color) m.push_back({s->arg[i][1], i});
  std::sort(m.begin(), m.end()); vector<int> r; for (auto &k : m) r.push_back(c->ctx->ranks[k.second]); int lead = m[0].second;
  if (!s->out[lead][0]) *(Ctx **)&s->out[lead][0] = ctx_new(r.data(), (int)r.size());
  Ctx *x = *(Ctx **)&s->out[lead][0]; coll_leave(c, s); *o = comm_new(x); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) { ENTER("MPI_Comm_split"); ck_comm(c); return do_split(c, color, key, o); }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *o) { ENTER("MPI_Comm_split_type"); ck_comm(c); return do_split(c, 0, key, o); }
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *o) {
  ENTER("MPI_Comm_create_group"); ck_comm(c); ck_group(g); ck_tag(tag, false); vector<int> all = ranks_of(c); int n = (int)g->r.size(), me = -1;
  for (int i = 0; i < n; i++) { if (std::find(all.begin(), all.end(), g->r[i]) == all.end()) BAD("comm-create-group", "MPI_Comm_create_group: process %d of the group is not in the communicator", g->r[i]); if (g->r[i] == g_rank) me = i; }
  if (me < 0) { if (n) BAD("comm-create-group", "MPI_Comm_create_group called by process %d, which is not in the group", g_rank); *o = MPI_COMM_NULL; return 0; }
  // rendezvous of exactly the members, per parent communicator, tag and group: ranks[1] marks who has arrived
  Rdv *v = nullptr; for (Rdv *k = S->rdv; k; k = k->next) if (k->b == -1 && k->peer == c->ctx->id && k->tag == tag && k->n[0] == n && !memcmp(k->ranks[0], g->r.data(), n * sizeof(int)) && !k->ranks[1][me]) v = k;
  if (!v) { v = (Rdv *)ar_alloc(sizeof(Rdv)); memset(v, 0, sizeof *v); v->peer = c->ctx->id; v->tag = tag; v->b = -1; v->n[0] = n; for (int i = 0; i < n; i++) v->ranks[0][i] = g->r[i]; v->next = S->rdv; S->rdv = v; }
  v->ranks[1][me] = 1; v->present[0]++; s_bump(); s_block(g_fn, [&] { return v->present[0] == n; });
  if (!v->ctx) v->ctx = ctx_new(v->ranks[0], n); Ctx *x = v->ctx;
  if (++v->taken[0] == n) { Rdv **pp = &S->rdv; while (*pp != v) pp = &(*pp)->next; *pp = v->next; ar_free(v, sizeof *v); }
  *o = comm_new(x); return 0;
}
int MPI_Comm_free(MPI_Comm *c) {
  ENTER_LOCAL("MPI_Comm_free"); ck_comm(*c); if ((*c)->builtin) BAD("free-builtin", "MPI_Comm_free of a predefined communicator");
  dead(*c); delete *c; *c = MPI_COMM_NULL; C.comm--; return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { ENTER_LOCAL("MPI_Comm_group"); ck_comm(c); *g = group_new(ranks_of(c)); return 0; }
int MPI_Intercomm_create(MPI_Comm lc, int ll, MPI_Comm pc, int rl, int tag, MPI_Comm *o) {
  ENTER("MPI_Intercomm_create"); ck_comm(lc); ck_tag(tag, false); if (ll < 0 || ll >= lc->size) BAD("bad-rank", "MPI_Intercomm_create: local leader %d of %d", ll, lc->size);
  CollSlot *s = coll_enter(lc, K_LEADER, ll, tag, nullptr, 0);
  if (lc->rank == ll) {
    ck_comm(pc); ck_rank(pc, rl, false); int mine = g_rank, other = world_of(pc, rl);
    if (mine == other) BAD("intercomm-self", "MPI_Intercomm_create with itself as the remote leader");
    vector<int> r = ranks_of(lc); int side = mine < other ? 0 : 1, a = std::min(mine, other), b = std::max(mine, other);
    Rdv *v = nullptr; for (Rdv *k = S->rdv; k; k = k->next) if (k->peer == pc->ctx->id && k->tag == tag && k->a == a && k->b == b && !k->present[side]) { v = k; }
    if (!v) { v = (Rdv *)ar_alloc(sizeof(Rdv)); memset(v, 0, sizeof *v); v->peer = pc->ctx->id; v->tag = tag; v->a = a; v->b = b; v->next = S->rdv; S->rdv = v; }
    v->n[side] = (int)r.size(); for (size_t i = 0; i < r.size(); i++) v->ranks[side][i] = r[i]; v->present[side] = 1; s_bump();
    s_block(g_fn, [&] { return v->present[0] && v->present[1]; });
    for (int i = 0; i < v->n[0]; i++) for (int j = 0; j < v->n[1]; j++) if (v->ranks[0][i] == v->ranks[1][j]) BAD("intercomm-overlap", "MPI_Intercomm_create: the two groups share process %d", v->ranks[0][i]);
    if (!v->ctx) v->ctx = ctx_new(v->ranks[0], v->n[0], v->ranks[1], v->n[1]);
    *(Ctx **)&s->out[0][0] = v->ctx; s->out[0][1] = side; s->state = 1; v->taken[side] = 1; s_bump();
    if (v->taken[0] && v->taken[1]) { Rdv **pp = &S->rdv; while (*pp != v) pp = &(*pp)->next; *pp = v->next; ar_free(v, sizeof *v); }
  } else s_block(g_fn, [&] { return s->state == 1; });
  Ctx *x = *(Ctx **)&s->out[0][0]; int side = (int)s->out[0][1]; coll_leave(lc, s); *o = comm_new(x, true, side); return 0;
}
int MPI_Intercomm_merge(MPI_Comm c, int high, MPI_Comm *o) {
  ENTER("MPI_Intercomm_merge"); ck_comm(c); if (!c->inter) BAD("merge-intra", "MPI_Intercomm_merge on an intracommunicator");
  long a[2] = {high != 0, c->side}; CollSlot *s = coll_enter(c, K_MERGE, -1, -1, nullptr, 0, a, 2); coll_all(s);
  if (!s->state) {
    s->state = 1; int h[2] = {-1, -1};
    for (int i = 0; i < SIM_MAXR; i++) if (s->has[i]) { int sd = (int)s->arg[i][1]; if (h[sd] >= 0 && h[sd] != s->arg[i][0]) BAD("merge-high-mismatch", "MPI_Intercomm_merge: different high values in one group"); h[sd] = (int)s->arg[i][0]; }
    int first = h[0] == h[1] ? (int)S->rrng.below(2) : (h[0] ? 1 : 0);
    vector<int> A(c->ctx->ranks, c->ctx->ranks + c->ctx->n), B(c->ctx->ranksB, c->ctx->ranksB + c->ctx->nB), r = first ? B : A, &q = first ? A : B; r.insert(r.end(), q.begin(), q.end());
    *(Ctx **)&s->out[0][0] = ctx_new(r.data(), (int)r.size());
  }
  Ctx *x = *(Ctx **)&s->out[0][0]; coll_leave(c, s); *o = comm_new(x); return 0;
}
int MPI_Comm_set_name(MPI_Comm c, const char *) { ENTER_LOCAL("MPI_Comm_set_name"); ck_comm(c); return 0; }
int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *f) { ENTER_LOCAL("MPI_Comm_get_attr"); ck_comm(c); static int ub = MPI_TAG_UB_VALUE; *f = k == MPI_TAG_UB; if (*f) *(int **)v = &ub; return 0; }
int MPI_Group_size(MPI_Group g, int *n) { ENTER_LOCAL("MPI_Group_size"); ck_group(g); *n = (int)g->r.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *r) { ENTER_LOCAL("MPI_Group_rank"); ck_group(g); *r = MPI_UNDEFINED; for (size_t i = 0; i < g->r.size(); i++) if (g->r[i] == g_rank) *r = (int)i; return 0; }
int MPI_Group_free(MPI_Group *g) { ENTER_LOCAL("MPI_Group_free"); ck_group(*g); if ((*g)->builtin) { *g = MPI_GROUP_NULL; return 0; } dead(*g); delete *g; *g = MPI_GROUP_NULL; C.group--; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb) {
  ENTER_LOCAL("MPI_Group_translate_ranks"); ck_group(a); ck_group(b); ck_count(n);
  for (int i = 0; i < n; i++) { if (ra[i] == MPI_PROC_NULL) { rb[i] = MPI_PROC_NULL; continue; } if (ra[i] < 0 || ra[i] >= (int)a->r.size()) BAD("bad-rank", "MPI_Group_translate_ranks: rank %d in a group of %zu", ra[i], a->r.size()); rb[i] = MPI_UNDEFINED; for (size_t j = 0; j < b->r.size(); j++) if (b->r[j] == a->r[ra[i]]) rb[i] = (int)j; }
  return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *r) { ENTER_LOCAL("MPI_Group_compare"); ck_group(a); ck_group(b); *r = cmp_ranks(a->r, b->r); return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) {
  ENTER_LOCAL("MPI_Group_incl"); ck_group(g); ck_count(n); vector<int> v; std::set<int> seen;
  for (int i = 0; i < n; i++) { if (r[i] < 0 || r[i] >= (int)g->r.size()) BAD("bad-rank", "MPI_Group_incl: rank %d in a group of %zu", r[i], g->r.size()); if (!seen.insert(r[i]).second) BAD("dup-rank", "MPI_Group_incl: rank %d listed twice", r[i]); v.push_back(g->r[r[i]]); }
  if (!n) { *o = MPI_GROUP_EMPTY; return 0; } *o = group_new(v); return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o) { ENTER_LOCAL("MPI_Group_excl"); ck_group(g); vector<int> v; for (size_t i = 0; i < g->r.size(); i++) if (std::find(r, r + n, (int)i) == r + n) v.push_back(g->r[i]); *o = v.empty() ? MPI_GROUP_EMPTY : group_new(v); return 0; }
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o) { ENTER_LOCAL("MPI_Group_union"); ck_group(a); ck_group(b); vector<int> v = a->r; for (int r : b->r) if (std::find(v.begin(), v.end(), r) == v.end()) v.push_back(r); *o = group_new(v); return 0; }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o) { ENTER_LOCAL("MPI_Group_intersection"); ck_group(a); ck_group(b); vector<int> v; for (int r : a->r) if (std::find(b->r.begin(), b->r.end(), r) != b->r.end()) v.push_back(r); *o = v.empty() ? MPI_GROUP_EMPTY : group_new(v); return 0; }
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o) { ENTER_LOCAL("MPI_Group_difference"); ck_group(a); ck_group(b); vector<int> v; for (int r : a->r) if (std::find(b->r.begin(), b->r.end(), r) == b->r.end()) v.push_back(r); *o = v.empty() ? MPI_GROUP_EMPTY : group_new(v); return 0; }

// ------------------------------------------------------------------ datatypes
int MPI_Type_size(MPI_Datatype t, int *n) { ENTER_LOCAL("MPI_Type_size"); ck_old(t); *n = t->d->size > 2147483647 ? MPI_UNDEFINED : (int)t->d->size; return 0; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count *n) { ENTER_LOCAL("MPI_Type_size_x"); ck_old(t); *n = t->d->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { ENTER_LOCAL("MPI_Type_get_extent"); ck_old(t); *lb = t->d->lb; *e = ext(*t->d); return 0; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { ENTER_LOCAL("MPI_Type_get_true_extent"); ck_old(t); *lb = t->d->true_lb; *e = t->d->true_ub - t->d->true_lb; return 0; }
int MPI_Type_get_extent_x(MPI_Datatype t, MPI_Count *lb, MPI_Count *e) { ENTER_LOCAL("MPI_Type_get_extent_x"); ck_old(t); *lb = t->d->lb; *e = ext(*t->d); return 0; }
int MPI_Type_get_true_extent_x(MPI_Datatype t, MPI_Count *lb, MPI_Count *e) { ENTER_LOCAL("MPI_Type_get_true_extent_x"); ck_old(t); *lb = t->d->true_lb; *e = t->d->true_ub - t->d->true_lb; return 0; }
int MPI_Type_commit(MPI_Datatype *t) { ENTER_LOCAL("MPI_Type_commit"); ck_old(*t); (*t)->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *t) { ENTER_LOCAL("MPI_Type_free"); ck_old(*t); if ((*t)->predefined) BAD("free-builtin", "MPI_Type_free of a predefined type"); dead(*t); delete *t; *t = MPI_DATATYPE_NULL; C.type--; return 0; }
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype *o) { ENTER_LOCAL("MPI_Type_dup"); ck_old(t); Builder b; b.d = std::make_shared<DTData>(*t->d); *o = b.fin(); (*o)->committed = t->committed; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { ENTER_LOCAL("MPI_Type_contiguous"); ck_old(t); ck_count(n); Builder b; b.rep(*t->d, 0, n); *o = b.fin(); return 0; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype t, MPI_Datatype *o) { ENTER_LOCAL("MPI_Type_create_hvector"); ck_old(t); ck_count(n); ck_count(bl); Builder b; for (int i = 0; i < n; i++) b.rep(*t->d, i * (long)st, bl); *o = b.fin(); return 0; }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype t, MPI_Datatype *o) { ENTER_LOCAL("MPI_Type_vector"); ck_old(t); ck_count(n); ck_count(bl); Builder b; for (int i = 0; i < n; i++) b.rep(*t->d, i * (long)st * ext(*t->d), bl); *o = b.fin(); return 0; }
int MPI_Type_indexed(int n, const int *bl, const int *dp, MPI_Datatype t, MPI_Datatype *o) { ENTER_LOCAL("MPI_Type_indexed"); ck_old(t); ck_count(n); Builder b; for (int i = 0; i < n; i++) { ck_count(bl[i]); b.rep(*t->d, (long)dp[i] * ext(*t->d), bl[i]); } *o = b.fin(); return 0; }
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *dp, MPI_Datatype t, MPI_Datatype *o) { ENTER_LOCAL("MPI_Type_create_hindexed"); ck_old(t); ck_count(n); Builder b; for (int i = 0; i < n; i++) { ck_count(bl[i]); b.rep(*t->d, dp[i], bl[i]); } *o = b.fin(); return 0; }
int MPI_Type_create_indexed_block(int n, int bl, const int *dp, MPI_Datatype t, MPI_Datatype *o) { ENTER_LOCAL("MPI_Type_create_indexed_block"); ck_old(t); ck_count(n); ck_count(bl); Builder b; for (int i = 0; i < n; i++) b.rep(*t->d, (long)dp[i] * ext(*t->d), bl); *o = b.fin(); return 0; }
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint *dp, MPI_Datatype t, MPI_Datatype *o) { ENTER_LOCAL("MPI_Type_create_hindexed_block"); ck_old(t); ck_count(n); ck_count(bl); Builder b; for (int i = 0; i < n; i++) b.rep(*t->d, dp[i], bl); *o = b.fin(); return 0; }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *dp, const MPI_Datatype *t, MPI_Datatype *o) { ENTER_LOCAL("MPI_Type_create_struct"); ck_count(n); Builder b; for (int i = 0; i < n; i++) { ck_old(t[i]); b.rep(*t[i]->d, dp[i], bl[i]); } *o = b.fin(); return 0; }
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint e, MPI_Datatype *o) { ENTER_LOCAL("MPI_Type_create_resized"); ck_old(t); Builder b; b.d = std::make_shared<DTData>(*t->d); b.d->lb = lb; b.d->ub = lb + e; *o = b.fin(); return 0; }
int MPI_Type_create_subarray(int nd, const int *sz, const int *sub, const int *start, int order, MPI_Datatype t, MPI_Datatype *o) {
  ENTER_LOCAL("MPI_Type_create_subarray"); ck_old(t); if (nd < 1) BAD("subarray-args", "MPI_Type_create_subarray with %d dimensions", nd);
  for (int i = 0; i < nd; i++) if (sub[i] < 1 || sub[i] > sz[i] || start[i] < 0 || start[i] + sub[i] > sz[i]) BAD("subarray-args", "MPI_Type_create_subarray: dimension %d size %d subsize %d start %d", i, sz[i], sub[i], start[i]);
  long e = ext(*t->d), tot = e; for (int i = 0; i < nd; i++) tot *= sz[i];
  Builder b; vector<int> ix(nd, 0);
  // dims from slowest to fastest
  vector<int> dims; for (int i = 0; i < nd; i++) dims.push_back(order == MPI_ORDER_C ? i : nd - 1 - i);
  for (;;) {
    long lin = 0; for (int k : dims) lin = lin * sz[k] + start[k] + (k == dims.back() ? 0 : ix[k]);
    b.rep(*t->d, lin * e, sub[dims.back()]);
    int k = nd - 2; for (; k >= 0; k--) { if (++ix[dims[k]] < sub[dims[k]]) break; ix[dims[k]] = 0; } if (k < 0) break;
  }
  b.d->lb = 0; b.d->ub = tot; *o = b.fin(); return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { ENTER_LOCAL("MPI_Get_count"); ck_dt(t); long sz = t->d->size; *n = sz == 0 ? 0 : (st->sim_bytes % sz ? MPI_UNDEFINED : (int)(st->sim_bytes / sz)); return 0; }
int MPI_Get_elements(const MPI_Status *st, MPI_Datatype t, int *n) { return MPI_Get_count(st, t, n); }
int MPI_Pack(const void *in, int n, MPI_Datatype t, void *out, int osz, int *pos, MPI_Comm) { ENTER_LOCAL("MPI_Pack"); ck_dt(t); ck_buf(in, n, *t->d, false, "input"); if (*pos + t->d->size * n > osz) BAD("pack-overflow", "MPI_Pack overflows"); pack(*t->d, in, n, (uint8_t *)out + *pos); *pos += (int)(t->d->size * n); return 0; }
int MPI_Unpack(const void *in, int isz, int *pos, void *out, int n, MPI_Datatype t, MPI_Comm) { ENTER_LOCAL("MPI_Unpack"); ck_dt(t); ck_buf(out, n, *t->d, true, "output"); if (*pos + t->d->size * n > isz) BAD("pack-overflow", "MPI_Unpack overruns"); unpack(*t->d, out, n, (const uint8_t *)in + *pos); *pos += (int)(t->d->size * n); return 0; }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int *sz) { ENTER_LOCAL("MPI_Pack_size"); ck_dt(t); *sz = (int)(t->d->size * n); return 0; }

// ------------------------------------------------------------------ operators
int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *o) { ENTER_LOCAL("MPI_Op_create"); *o = new simmpi_op_s{0, false, commute != 0, false, f}; live(*o); C.op++; return 0; }
int MPI_Op_free(MPI_Op *o) { ENTER_LOCAL("MPI_Op_free"); ck_op(*o); if ((*o)->predefined) BAD("free-builtin", "MPI_Op_free of a predefined operator"); dead(*o); delete *o; *o = MPI_OP_NULL; C.op--; return 0; }
int MPI_Reduce_local(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op) { ENTER_LOCAL("MPI_Reduce_local"); ck_red(op, t, n, a, b); ck_buf(a, n, *t->d, false, "input"); ck_buf(b, n, *t->d, true, "in/out"); reduce_dt(op, t, (const uint8_t *)a, (uint8_t *)b, n); return 0; }

// ------------------------------------------------------------------ point to point
static int do_send(const char *fn, const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, bool sync) { ENTER(fn); Msg *m = send_start(b, n, t, d, tag, c, sync); if (m && m->sync) { s_block(g_fn, [&] { recv_progress(); return m->consumed; }); msg_release(m); } return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send("MPI_Send", b, n, t, d, tag, c, false); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send("MPI_Ssend", b, n, t, d, tag, c, true); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send("MPI_Rsend", b, n, t, d, tag, c, false); }
static MPI_Request irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c) {
  ck_comm(c); ck_dt(t); ck_count(n); ck_rank(c, src, true); ck_tag(tag, true); ck_buf(b, n, *t->d, true, "receive");
  MPI_Request r = mkreq(3); r->buf = b; r->count = n; r->dt = t->d; r->src = src; r->tag = tag; r->comm = c;
  if (src == MPI_PROC_NULL) { r->done = true; r->st.MPI_SOURCE = MPI_PROC_NULL; r->st.sim_bytes = 0; } else { g_recvs->push_back(r); }
  return r;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { ENTER("MPI_Isend"); Msg *m = send_start(b, n, t, d, tag, c, false); *r = mkreq(2); (*r)->m = m && m->sync ? m : nullptr; (*r)->done = !(*r)->m; return 0; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { ENTER("MPI_Issend"); Msg *m = send_start(b, n, t, d, tag, c, true); *r = mkreq(2); (*r)->m = m; (*r)->done = !m; return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { ENTER("MPI_Irecv"); *r = irecv(b, n, t, s, tag, c); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { ENTER("MPI_Recv"); MPI_Request r = irecv(b, n, t, s, tag, c); req_wait(&r, st); return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sdt, int d, int stag, void *rb, int rn, MPI_Datatype rdt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  ENTER("MPI_Sendrecv"); if (sb == rb && sb && sn && rn) BAD("sendrecv-alias", "MPI_Sendrecv with overlapping buffers");
  Msg *m = send_start(sb, sn, sdt, d, stag, c, false); MPI_Request r = irecv(rb, rn, rdt, s, rtag, c); req_wait(&r, st);
  if (m && m->sync) { s_block(g_fn, [&] { recv_progress(); return m->consumed; }); msg_release(m); } return 0;
}
static bool msg_visible(Msg *m) { if (m->visible > 0) { m->visible--; return false; } return true; }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { ENTER("MPI_Probe"); ck_comm(c); ck_rank(c, s, true); ck_tag(tag, true); Msg *m = nullptr; s_block(g_fn, [&] { m = match(c, s, tag, false); return m != nullptr; }); if (st) { st->MPI_SOURCE = comm_rank_of(c, m->src); st->MPI_TAG = m->tag; st->sim_bytes = (long)m->b->len; } return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *f, MPI_Status *st) { ENTER("MPI_Iprobe"); ck_comm(c); ck_rank(c, s, true); ck_tag(tag, true); recv_progress(); Msg *m = match(c, s, tag, false); *f = m && msg_visible(m); if (*f && st) { st->MPI_SOURCE = comm_rank_of(c, m->src); st->MPI_TAG = m->tag; st->sim_bytes = (long)m->b->len; } return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *st) { ENTER("MPI_Wait"); req_wait(r, st); return 0; }
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st) { ENTER("MPI_Test"); *f = req_test(r, st); return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { ENTER("MPI_Waitall"); ck_count(n); for (int i = 0; i < n; i++) req_wait(&r[i], st ? &st[i] : nullptr); return 0; }
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *st) { ENTER("MPI_Testall"); ck_count(n); bool all = true; for (int i = 0; i < n; i++) if (!peek_test(r[i])) all = false; *f = all; if (all) for (int i = 0; i < n; i++) { if (r[i]) req_finish(&r[i], st ? &st[i] : nullptr); else null_status(st ? &st[i] : nullptr); } return 0; }
int MPI_Waitany(int n, MPI_Request *r, int *ix, MPI_Status *st) {
  ENTER("MPI_Waitany"); ck_count(n); bool any = false; for (int i = 0; i < n; i++) if (r[i]) any = true; if (!any) { *ix = MPI_UNDEFINED; null_status(st); return 0; }
  int got = -1; s_block(g_fn, [&] { int o = n ? (int)S->rrng.below(n) : 0; for (int k = 0; k < n; k++) { int i = (o + k) % n; if (r[i] && peek_test(r[i])) { got = i; return true; } } for (int i = 0; i < n; i++) if (r[i] && r[i]->kind == 1) { local_complete(r[i]->win, r[i]->op); got = i; return true; } return false; });
  *ix = got; req_finish(&r[got], st); return 0;
}
int MPI_Testany(int n, MPI_Request *r, int *ix, int *f, MPI_Status *st) { ENTER("MPI_Testany"); ck_count(n); *f = 0; *ix = MPI_UNDEFINED; bool any = false; for (int i = 0; i < n; i++) if (r[i]) { any = true; if (peek_test(r[i])) { *ix = i; *f = 1; req_finish(&r[i], st); return 0; } } if (!any) { *f = 1; null_status(st); } return 0; }
int MPI_Request_free(MPI_Request *r) { ENTER_LOCAL("MPI_Request_free"); ck_req(*r); if ((*r)->kind == 3 && !(*r)->done) BAD("request-free-recv", "MPI_Request_free of an active receive"); dead(*r); *r = MPI_REQUEST_NULL; C.req--; return 0; }
int MPI_Request_get_status(MPI_Request r, int *f, MPI_Status *st) { ENTER("MPI_Request_get_status"); *f = peek_test(r); if (*f && st && r) *st = r->st; return 0; }

// ------------------------------------------------------------------ collectives
int MPI_Barrier(MPI_Comm c) { ENTER("MPI_Barrier"); ck_comm(c); CollSlot *s = coll_enter(c, K_BARRIER, -1, -1, nullptr, 0); coll_all(s); coll_leave(c, s); return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) { ENTER("MPI_Ibarrier"); ck_comm(c); *r = mkreq(4); (*r)->slot = coll_enter(c, K_BARRIER, -1, -1, nullptr, 0); (*r)->ckind = K_BARRIER; (*r)->comm = c; return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  ENTER("MPI_Bcast"); ck_comm(c); ck_dt(t); ck_count(n); if (root < 0 || root >= c->size) BAD("bad-rank", "MPI_Bcast with root %d of %d", root, c->size);
  bool me = c->rank == root; ck_buf(b, n, *t->d, !me, "broadcast"); vector<uint8_t> v; if (me) v = packed(b, n, *t->d);
  CollSlot *s = coll_enter(c, K_BCAST, root, t->d->size * n, me ? v.data() : nullptr, v.size());
  if (me) { if (!s->contrib[root]) s->contrib[root] = blob_new(nullptr, 0); if (sync_now()) coll_all(s); }
  else { s_block(g_fn, [&] { return s->has[root]; }); unpack(*t->d, b, n, s->contrib[root]->data); }
  coll_leave(c, s); return 0;
}
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *r) {
  ENTER("MPI_Ibcast"); ck_comm(c); ck_dt(t); ck_count(n); bool me = c->rank == root; vector<uint8_t> v; if (me) v = packed(b, n, *t->d);
  *r = mkreq(4); (*r)->slot = coll_enter(c, K_BCAST, root, t->d->size * n, me ? v.data() : nullptr, v.size()); if (me && !(*r)->slot->contrib[root]) (*r)->slot->contrib[root] = blob_new(nullptr, 0);
  (*r)->ckind = K_BCAST; (*r)->comm = c; (*r)->buf = b; (*r)->count = n; (*r)->dt = t->d; (*r)->ci = c->rank; return 0;
}
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  ENTER("MPI_Allreduce"); ck_comm(c); ck_red(op, t, n, sb, rb); const void *in = sb == MPI_IN_PLACE ? rb : sb; ck_buf(in, n, *t->d, false, "send"); ck_buf(rb, n, *t->d, true, "receive");
  if (c->size == 1 && (uint64_t)n * t->d->size >= (1ul << 29)) { uint64_t z = 0; CollSlot *s = coll_enter(c, K_ALLREDUCE, -1, t->d->size * n * 64 + (op->fn ? 63 : op->id), (uint8_t *)&z, 0); coll_all(s); if (in != rb) memmove(rb, in, (uint64_t)n * t->d->size); coll_leave(c, s); return 0; }
  vector<uint8_t> v = packed(in, n, *t->d);
  CollSlot *s = coll_enter(c, K_ALLREDUCE, -1, t->d->size * n * 64 + (op->fn ? 63 : op->id), v.data(), v.size()); if (!s->contrib[c->rank]) s->contrib[c->rank] = blob_new(nullptr, 0);
  scribble(rb, n, *t->d); coll_all(s);
  if (!s->result) { vector<uint8_t> o; combine(op, t, s, 0, c->size - 1, n, o); s->result = blob_new(o.data(), o.size()); }
  unpack(*t->d, rb, n, s->result->data); coll_leave(c, s); return 0;
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  ENTER("MPI_Reduce"); ck_comm(c); bool me = c->rank == root; if (sb == MPI_IN_PLACE && !me) BAD("in-place-nonroot", "MPI_Reduce with MPI_IN_PLACE at a non-root"); ck_red(op, t, n, sb, me ? rb : nullptr);
  if (root < 0 || root >= c->size) BAD("bad-rank", "MPI_Reduce with root %d of %d", root, c->size);
  const void *in = sb == MPI_IN_PLACE ? rb : sb; ck_buf(in, n, *t->d, false, "send"); if (me) ck_buf(rb, n, *t->d, true, "receive");
  vector<uint8_t> v = packed(in, n, *t->d); CollSlot *s = coll_enter(c, K_REDUCE, root, t->d->size * n * 64 + (op->fn ? 63 : op->id), v.data(), v.size()); if (!s->contrib[c->rank]) s->contrib[c->rank] = blob_new(nullptr, 0);
  if (me) { coll_all(s); vector<uint8_t> o; combine(op, t, s, 0, c->size - 1, n, o); unpack(*t->d, rb, n, o.data()); } else if (sync_now()) coll_all(s);
  coll_leave(c, s); return 0;
}
static MPI_Request creq(std::function<bool()> rdy, std::function<void()> fin) { MPI_Request r = mkreq(5); r->fready = rdy; r->ffin = fin; return r; }
int MPI_Iallreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *r) {
  ENTER("MPI_Iallreduce"); ck_comm(c); ck_red(op, t, n, sb, rb); const void *in = sb == MPI_IN_PLACE ? rb : sb; ck_buf(in, n, *t->d, false, "send"); ck_buf(rb, n, *t->d, true, "receive");
  vector<uint8_t> v = packed(in, n, *t->d); CollSlot *s = coll_enter(c, K_ALLREDUCE, -1, t->d->size * n * 64 + (op->fn ? 63 : op->id), v.data(), v.size()); if (!s->contrib[c->rank]) s->contrib[c->rank] = blob_new(nullptr, 0);
  scribble(rb, n, *t->d);
  *r = creq([=] { return s->arrived == s->expected; }, [=] { if (!s->result) { vector<uint8_t> o; combine(op, t, s, 0, c->size - 1, n, o); s->result = blob_new(o.data(), o.size()); } unpack(*t->d, rb, n, s->result->data); coll_leave(c, s); });
  return 0;
}
int MPI_Ireduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *r) {
  ENTER("MPI_Ireduce"); ck_comm(c); bool me = c->rank == root; if (sb == MPI_IN_PLACE && !me) BAD("in-place-nonroot", "MPI_Ireduce with MPI_IN_PLACE at a non-root"); if (root < 0 || root >= c->size) BAD("bad-rank", "MPI_Ireduce with root %d of %d", root, c->size);
  ck_red(op, t, n, sb, me ? rb : nullptr); const void *in = sb == MPI_IN_PLACE ? rb : sb; ck_buf(in, n, *t->d, false, "send"); if (me) ck_buf(rb, n, *t->d, true, "receive");
  vector<uint8_t> v = packed(in, n, *t->d); CollSlot *s = coll_enter(c, K_REDUCE, root, t->d->size * n * 64 + (op->fn ? 63 : op->id), v.data(), v.size()); if (!s->contrib[c->rank]) s->contrib[c->rank] = blob_new(nullptr, 0);
  *r = creq([=] { return !me || s->arrived == s->expected; }, [=] { if (me) { vector<uint8_t> o; combine(op, t, s, 0, c->size - 1, n, o); unpack(*t->d, rb, n, o.data()); } coll_leave(c, s); });
  return 0;
}
int MPI_Iallgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *r) {
  ENTER("MPI_Iallgather"); ck_comm(c); ck_dt(rt); ck_count(rn); long e = ext(*rt->d); vector<uint8_t> v;
  if (sb == MPI_IN_PLACE) v = packed((uint8_t *)rb + (long)c->rank * rn * e, rn, *rt->d); else { ck_dt(st); ck_count(sn); ck_buf(sb, sn, *st->d, false, "send"); v = packed(sb, sn, *st->d); }
  ck_buf(rb, (long)rn * c->size, *rt->d, true, "receive");
  CollSlot *s = coll_enter(c, K_ALLGATHER, -1, rt->d->size * rn, v.data(), v.size());
  *r = creq([=] { return s->arrived == s->expected; }, [=] { if (rt->d->size * rn) for (int i = 0; i < c->size; i++) unpack(*rt->d, (uint8_t *)rb + (long)i * rn * e, rn, s->contrib[i]->data); coll_leave(c, s); });
  return 0;
}
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
  ENTER("MPI_Allgather"); ck_comm(c); ck_dt(rt); ck_count(rn); vector<uint8_t> v; long e = ext(*rt->d);
  if (sb == MPI_IN_PLACE) v = packed((uint8_t *)rb + (long)c->rank * rn * e, rn, *rt->d); else { ck_dt(st); ck_count(sn); ck_buf(sb, sn, *st->d, false, "send"); if (st->d->size * sn != rt->d->size * rn) BAD("allgather-size", "MPI_Allgather: send %ld bytes, receive %ld", st->d->size * sn, rt->d->size * rn);
    if ((uint8_t *)sb >= (uint8_t *)rb && (uint8_t *)sb < (uint8_t *)rb + (long)c->size * rn * e) BAD("collective-alias", "MPI_Allgather: send buffer inside the receive buffer"); v = packed(sb, sn, *st->d); }
  ck_buf(rb, (long)rn * c->size, *rt->d, true, "receive");
  CollSlot *s = coll_enter(c, K_ALLGATHER, -1, rt->d->size * rn, v.data(), v.size()); coll_all(s);
  if (rt->d->size * rn) for (int i = 0; i < c->size; i++) unpack(*rt->d, (uint8_t *)rb + (long)i * rn * e, rn, s->contrib[i]->data);
  coll_leave(c, s); return 0;
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  ENTER("MPI_Gather"); ck_comm(c); bool me = c->rank == root; vector<uint8_t> v; if (sb == MPI_IN_PLACE) v = packed((uint8_t *)rb + (long)c->rank * rn * ext(*rt->d), rn, *rt->d); else { ck_dt(st); v = packed(sb, sn, *st->d); }
  CollSlot *s = coll_enter(c, K_GATHER, root, (long)v.size(), v.data(), v.size());
  if (me) { coll_all(s); ck_dt(rt); if (v.size()) for (int i = 0; i < c->size; i++) unpack(*rt->d, (uint8_t *)rb + (long)i * rn * ext(*rt->d), rn, s->contrib[i]->data); }
  coll_leave(c, s); return 0;
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  ENTER("MPI_Scatter"); ck_comm(c); bool me = c->rank == root; vector<uint8_t> v; if (me) v = packed(sb, (long)sn * c->size, *st->d);
  CollSlot *s = coll_enter(c, K_SCATTER, root, -1, me ? v.data() : nullptr, v.size()); s_block(g_fn, [&] { return s->has[root]; });
  if (rb != MPI_IN_PLACE) { long k = (long)s->contrib[root]->len / c->size; if (k) unpack(*rt->d, rb, rn, s->contrib[root]->data + k * c->rank); } coll_leave(c, s); return 0;
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
  ENTER("MPI_Alltoall"); ck_comm(c); ck_dt(st); ck_dt(rt); vector<uint8_t> v = packed(sb, (long)sn * c->size, *st->d); CollSlot *s = coll_enter(c, K_ALLTOALL, -1, st->d->size * sn, v.data(), v.size()); coll_all(s);
  long k = rt->d->size * rn; if (k) for (int i = 0; i < c->size; i++) unpack(*rt->d, (uint8_t *)rb + (long)i * rn * ext(*rt->d), rn, s->contrib[i]->data + k * c->rank); coll_leave(c, s); return 0;
}
static int do_scan(int kind, const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  ck_comm(c); ck_red(op, t, n, sb, rb); vector<uint8_t> v = packed(sb == MPI_IN_PLACE ? rb : sb, n, *t->d); CollSlot *s = coll_enter(c, kind, -1, t->d->size * n, v.data(), v.size()); if (!s->contrib[c->rank]) s->contrib[c->rank] = blob_new(nullptr, 0);
  s_block(g_fn, [&] { for (int i = 0; i < c->rank; i++) if (!s->has[i]) return false; return true; });
  int hi = kind == K_SCAN ? c->rank : c->rank - 1; if (hi >= 0) { vector<uint8_t> o; combine(op, t, s, 0, hi, n, o); unpack(*t->d, rb, n, o.data()); } coll_leave(c, s); return 0;
}
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { ENTER("MPI_Scan"); return do_scan(K_SCAN, sb, rb, n, t, op, c); }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { ENTER("MPI_Exscan"); return do_scan(K_EXSCAN, sb, rb, n, t, op, c); }

// ------------------------------------------------------------------ RMA
static int win_new(void *base, long size, int disp, MPI_Info info, MPI_Comm c, MPI_Win *w, int flavor, bool own) {
  if (disp < 1) BAD("win-disp", "%s with displacement unit %d", g_fn, disp); if (size < 0) BAD("win-size", "%s with size %ld", g_fn, size);
  long off = 0;
  if (size > 0) { off = sim_slab_offset(base);
    if (off < 0) sim_fatal("HARNESS", "win-private-memory", "window over memory not obtained from MPI is not modelled (%p)", base);
    auto it = g_mem->upper_bound((uint8_t *)base); if (it == g_mem->begin()) BAD("win-memory", "%s over unallocated memory", g_fn); --it; if ((uint8_t *)base + size > it->first + it->second) BAD("win-memory", "%s of %ld bytes over a block of %ld bytes", g_fn, size, it->second); }
  if (S->cfg.win_separate && size > 0) { memcpy(slab_public(g_rank, off), base, size); memcpy(slab_synced(g_rank, off), base, size); }
  long a[4] = {off, size, disp, 0}; if (info) { ck_info(info); auto it = info->kv.find("accumulate_ordering"); if (it != info->kv.end() && it->second == "none") a[3] |= 1; it = info->kv.find("accumulate_ops"); if (it != info->kv.end() && it->second == "same_op") a[3] |= 2; it = info->kv.find("same_disp_unit"); if (it != info->kv.end() && it->second == "true") a[3] |= 4; }
  CollSlot *s = coll_enter(c, K_WINCREATE, flavor, -1, nullptr, 0, a, 4); coll_all(s);
  if (!s->state) { s->state = 1; WinSh *sh = (WinSh *)ar_alloc(sizeof(WinSh)); memset(sh, 0, sizeof *sh); sh->id = S->next_win++; sh->sep = S->cfg.win_separate; sh->n = c->size; for (int i = 0; i < c->size; i++) { sh->ranks[i] = c->ctx->ranks[i]; sh->t[i] = {(uint64_t)s->arg[i][0], s->arg[i][1], (int)s->arg[i][2], 0, 0}; if (s->arg[i][3] & 1) sh->unordered_acc = 1; if (s->arg[i][3] & 2) sh->same_op = 1; if ((s->arg[i][3] & 4) && s->arg[i][2] != s->arg[0][2]) BAD("hint-disp-unit", "%s: displacement units %ld and %ld in a window created with same_disp_unit=true", g_fn, s->arg[0][2], s->arg[i][2]); } *(WinSh **)&s->out[0][0] = sh; *(Ctx **)&s->out[0][1] = ctx_new(c->ctx->ranks, c->ctx->n); }
  WinSh *sh = *(WinSh **)&s->out[0][0]; Ctx *wx = *(Ctx **)&s->out[0][1]; coll_leave(c, s);
  auto *x = new simmpi_win_s(); x->sh = sh; x->comm = comm_new(wx); C.comm--;   // a window communicates on a private context
  x->me = c->rank; x->flavor = flavor; x->model = new int(S->cfg.win_separate ? MPI_WIN_SEPARATE : MPI_WIN_UNIFIED); x->base = base; x->size = size; x->disp = disp; x->attached_alloc = own;
  if (info) x->info = info->kv;
  live(x); g_wins->insert(x); C.win++; *w = x; return 0;
}
int MPI_Win_create(void *base, MPI_Aint size, int disp, MPI_Info info, MPI_Comm c, MPI_Win *w) { ENTER("MPI_Win_create"); ck_comm(c); return win_new(base, size, disp, info, c, w, MPI_WIN_FLAVOR_CREATE, false); }
int MPI_Win_allocate(MPI_Aint size, int disp, MPI_Info info, MPI_Comm c, void *bp, MPI_Win *w) {
  ENTER("MPI_Win_allocate"); ck_comm(c); void *b = nullptr; bool own = false;
  if (size > 0 || S->rrng.below(2)) { b = mem_alloc(size); own = true; }
  *(void **)bp = b; return win_new(b, size, disp, info, c, w, MPI_WIN_FLAVOR_ALLOCATE, own);
}
int MPI_Win_free(MPI_Win *wp) {
  ENTER("MPI_Win_free"); ck_win(*wp); MPI_Win w = *wp;
  if (w->lockall) BAD("winfree-epoch", "MPI_Win_free inside a lock_all epoch"); for (int i = 0; i < w->sh->n; i++) if (w->lock[i]) BAD("winfree-epoch", "MPI_Win_free while target %d is locked", i);
  CollSlot *s = coll_enter(w->comm, K_WINFREE, -1, w->sh->id, nullptr, 0); coll_all(s); coll_leave(w->comm, s);
  if (w->attached_alloc) mem_free((uint8_t *)w->base);
  g_wins->erase(w); dead(w); dead(w->comm); delete w->comm; delete w->model; delete w; C.win--; *wp = MPI_WIN_NULL; return 0;
}
int MPI_Win_get_attr(MPI_Win w, int k, void *v, int *f) {
  ENTER_LOCAL("MPI_Win_get_attr"); ck_win(w); *f = 1;
  static MPI_Aint sz; static int fl; switch (k) { case MPI_WIN_BASE: *(void **)v = w->base; break; case MPI_WIN_SIZE: sz = w->size; *(MPI_Aint **)v = &sz; break; case MPI_WIN_DISP_UNIT: *(int **)v = &w->disp; break; case MPI_WIN_CREATE_FLAVOR: fl = w->flavor; *(int **)v = &fl; break; case MPI_WIN_MODEL: *(int **)v = w->model; break; default: *f = 0; }
  return 0;
}
int MPI_Win_get_group(MPI_Win w, MPI_Group *g) { ENTER_LOCAL("MPI_Win_get_group"); ck_win(w); *g = group_new(vector<int>(w->sh->ranks, w->sh->ranks + w->sh->n)); return 0; }
int MPI_Win_set_name(MPI_Win w, const char *) { ENTER_LOCAL("MPI_Win_set_name"); ck_win(w); return 0; }
static void acquire(MPI_Win w, int t, int type, bool nocheck) {
  count_call(nocheck ? "lock with NOCHECK" : "lock without NOCHECK");
  WinTarget &x = w->sh->t[t];
  if (nocheck) { if (x.excl || (type == MPI_LOCK_EXCLUSIVE && x.shared)) BAD("nocheck-conflict", "%s asserts MPI_MODE_NOCHECK but target %d is locked by another process", g_fn, t); }
  else s_block(g_fn, [&] { return !x.excl && !(type == MPI_LOCK_EXCLUSIVE && x.shared); });
  if (type == MPI_LOCK_EXCLUSIVE) x.excl = 1; else x.shared++;
}
static void release(MPI_Win w, int t, int type) { WinTarget &x = w->sh->t[t]; if (type == MPI_LOCK_EXCLUSIVE) x.excl = 0; else x.shared--; s_bump(); }
int MPI_Win_lock(int type, int t, int as, MPI_Win w) {
  ENTER("MPI_Win_lock"); ck_win(w); if (type != MPI_LOCK_EXCLUSIVE && type != MPI_LOCK_SHARED) BAD("lock-type", "MPI_Win_lock with type %d", type); if (t < 0 || t >= w->sh->n) BAD("rma-bad-rank", "MPI_Win_lock: target %d of %d", t, w->sh->n);
  if (w->lockall || w->lock[t]) BAD("lock-nested", "MPI_Win_lock: target %d is already locked by this process", t);
  acquire(w, t, type, as & MPI_MODE_NOCHECK); w->lock[t] = type; if (t == w->me) win_sync_own(w); return 0;
}
int MPI_Win_unlock(int t, MPI_Win w) { ENTER("MPI_Win_unlock"); ck_win(w); if (t < 0 || t >= w->sh->n) BAD("rma-bad-rank", "MPI_Win_unlock: target %d of %d", t, w->sh->n); if (!w->lock[t]) BAD("unlock-unlocked", "MPI_Win_unlock: target %d is not locked", t); flush_target(w, t, true); release(w, t, w->lock[t]); w->lock[t] = 0; if (t == w->me) win_sync_own(w); return 0; }
int MPI_Win_lock_all(int as, MPI_Win w) { ENTER("MPI_Win_lock_all"); ck_win(w); if (w->lockall) BAD("lock-nested", "MPI_Win_lock_all inside a lock_all epoch"); for (int i = 0; i < w->sh->n; i++) if (w->lock[i]) BAD("lock-nested", "MPI_Win_lock_all while target %d is locked", i); for (int i = 0; i < w->sh->n; i++) acquire(w, i, MPI_LOCK_SHARED, as & MPI_MODE_NOCHECK); win_sync_own(w); w->lockall = true; return 0; }
int MPI_Win_unlock_all(MPI_Win w) { ENTER("MPI_Win_unlock_all"); ck_win(w); if (!w->lockall) BAD("unlock-unlocked", "MPI_Win_unlock_all outside a lock_all epoch"); flush_target(w, -1, true); for (int i = 0; i < w->sh->n; i++) release(w, i, MPI_LOCK_SHARED); win_sync_own(w); w->lockall = false; return 0; }
static void ck_passive(MPI_Win w, int t) { ck_win(w); if (t >= 0 && t >= w->sh->n) BAD("rma-bad-rank", "%s: target %d of %d", g_fn, t, w->sh->n); if (t < -1) BAD("rma-bad-rank", "%s: target %d", g_fn, t); bool any = w->lockall; if (t >= 0) any |= w->lock[t] != 0; else for (int i = 0; i < w->sh->n; i++) any |= w->lock[i] != 0; if (!any) BAD("flush-no-epoch", "%s outside a passive-target epoch", g_fn); }
int MPI_Win_flush(int t, MPI_Win w) { ENTER("MPI_Win_flush"); if (t < 0) BAD("rma-bad-rank", "MPI_Win_flush: target %d", t); ck_passive(w, t); flush_target(w, t, true); return 0; }
int MPI_Win_flush_all(MPI_Win w) { ENTER("MPI_Win_flush_all"); ck_passive(w, -1); flush_target(w, -1, true); return 0; }
int MPI_Win_flush_local(int t, MPI_Win w) { ENTER("MPI_Win_flush_local"); if (t < 0) BAD("rma-bad-rank", "MPI_Win_flush_local: target %d", t); ck_passive(w, t); flush_target(w, t, false); return 0; }
int MPI_Win_flush_local_all(MPI_Win w) { ENTER("MPI_Win_flush_local_all"); ck_passive(w, -1); flush_target(w, -1, false); return 0; }
int MPI_Win_sync(MPI_Win w) { ENTER("MPI_Win_sync"); ck_passive(w, -1); win_sync_own(w); return 0; }
int MPI_Win_fence(int as, MPI_Win w) { ENTER("MPI_Win_fence"); ck_win(w); flush_target(w, -1, true); win_sync_own(w); CollSlot *s = coll_enter(w->comm, K_FENCE, -1, w->sh->id, nullptr, 0); coll_all(s); coll_leave(w->comm, s); win_sync_own(w); w->fence_epoch = !(as & MPI_MODE_NOSUCCEED); return 0; }
int MPI_Put(const void *o, int oc, MPI_Datatype od, int t, MPI_Aint d, int tc, MPI_Datatype td, MPI_Win w) { ENTER("MPI_Put"); rma(1 - 1, o, oc, od, nullptr, 0, nullptr, t, d, tc, td, nullptr, w); return 0; }
int MPI_Get(void *o, int oc, MPI_Datatype od, int t, MPI_Aint d, int tc, MPI_Datatype td, MPI_Win w) { ENTER("MPI_Get"); rma(1, nullptr, 0, nullptr, o, oc, od, t, d, tc, td, nullptr, w); return 0; }
int MPI_Accumulate(const void *o, int oc, MPI_Datatype od, int t, MPI_Aint d, int tc, MPI_Datatype td, MPI_Op op, MPI_Win w) { ENTER("MPI_Accumulate"); ck_op(op); rma(2, o, oc, od, nullptr, 0, nullptr, t, d, tc, td, op, w); return 0; }
int MPI_Get_accumulate(const void *o, int oc, MPI_Datatype od, void *r, int rc, MPI_Datatype rd, int t, MPI_Aint d, int tc, MPI_Datatype td, MPI_Op op, MPI_Win w) { ENTER("MPI_Get_accumulate"); ck_op(op); rma(3, o, oc, od, r, rc, rd, t, d, tc, td, op, w); return 0; }
int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype dt, int t, MPI_Aint d, MPI_Op op, MPI_Win w) { ENTER("MPI_Fetch_and_op"); ck_op(op); ck_dt(dt); if (!dt->predefined) BAD("fop-type", "MPI_Fetch_and_op with a derived datatype"); rma(3, o, 1, dt, r, 1, dt, t, d, 1, dt, op, w); return 0; }
int MPI_Compare_and_swap(const void *o, const void *cmp, void *r, MPI_Datatype dt, int t, MPI_Aint d, MPI_Win w) { ENTER("MPI_Compare_and_swap"); ck_dt(dt); rma(4, o, 1, dt, r, 1, dt, t, d, 1, dt, MPI_REPLACE, w, cmp); return 0; }
static int rreq(shared_ptr<RmaOp> o, MPI_Win w, MPI_Request *r) { *r = mkreq(1); (*r)->op = o; (*r)->win = w; o->isreq = true; if (!o->local_done && ++g_ropen > g_rhwm) g_rhwm = g_ropen; return 0; }
static void ck_rpassive(MPI_Win w, int t) { ck_win(w); if (t >= 0 && t < w->sh->n && !w->lockall && !w->lock[t]) BAD("rma-no-epoch", "%s outside a passive-target epoch", g_fn); }
int MPI_Rput(const void *o, int oc, MPI_Datatype od, int t, MPI_Aint d, int tc, MPI_Datatype td, MPI_Win w, MPI_Request *r) { ENTER("MPI_Rput"); ck_rpassive(w, t); return rreq(rma(0, o, oc, od, nullptr, 0, nullptr, t, d, tc, td, nullptr, w), w, r); }
int MPI_Rget(void *o, int oc, MPI_Datatype od, int t, MPI_Aint d, int tc, MPI_Datatype td, MPI_Win w, MPI_Request *r) { ENTER("MPI_Rget"); ck_rpassive(w, t); return rreq(rma(1, nullptr, 0, nullptr, o, oc, od, t, d, tc, td, nullptr, w), w, r); }
int MPI_Raccumulate(const void *o, int oc, MPI_Datatype od, int t, MPI_Aint d, int tc, MPI_Datatype td, MPI_Op op, MPI_Win w, MPI_Request *r) { ENTER("MPI_Raccumulate"); ck_op(op); ck_rpassive(w, t); return rreq(rma(2, o, oc, od, nullptr, 0, nullptr, t, d, tc, td, op, w), w, r); }
int MPI_Rget_accumulate(const void *o, int oc, MPI_Datatype od, void *rb, int rc, MPI_Datatype rd, int t, MPI_Aint d, int tc, MPI_Datatype td, MPI_Op op, MPI_Win w, MPI_Request *r) { ENTER("MPI_Rget_accumulate"); ck_op(op); ck_rpassive(w, t); return rreq(rma(3, o, oc, od, rb, rc, rd, t, d, tc, td, op, w), w, r); }

// ------------------------------------------------------------------ the rest of MPI that a reasonable ARMCI implementation might reach for
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, const int *dp, MPI_Datatype rt, MPI_Comm c) {
  ENTER("MPI_Allgatherv"); ck_comm(c); ck_dt(rt); long e = ext(*rt->d); vector<uint8_t> v;
  if (sb == MPI_IN_PLACE) v = packed((uint8_t *)rb + (long)dp[c->rank] * e, rn[c->rank], *rt->d); else { ck_dt(st); ck_count(sn); ck_buf(sb, sn, *st->d, false, "send"); v = packed(sb, sn, *st->d); }
  for (int i = 0; i < c->size; i++) { ck_count(rn[i]); ck_buf((uint8_t *)rb + dp[i] * e, rn[i], *rt->d, true, "receive"); }
  CollSlot *s = coll_enter(c, K_ALLGATHER, -1, -1, v.data(), v.size()); coll_all(s);
  for (int i = 0; i < c->size; i++) { long got = s->contrib[i] ? (long)s->contrib[i]->len : 0; if (got != rt->d->size * rn[i]) BAD("collective-size-mismatch", "MPI_Allgatherv: %ld bytes from rank %d, %ld expected", got, i, rt->d->size * rn[i]); if (got) unpack(*rt->d, (uint8_t *)rb + dp[i] * e, rn[i], s->contrib[i]->data); }
  coll_leave(c, s); return 0;
}
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, const int *dp, MPI_Datatype rt, int root, MPI_Comm c) {
  ENTER("MPI_Gatherv"); ck_comm(c); if (root < 0 || root >= c->size) BAD("bad-rank", "MPI_Gatherv with root %d of %d", root, c->size); bool me = c->rank == root; vector<uint8_t> v;
  if (sb == MPI_IN_PLACE) v = packed((uint8_t *)rb + (long)dp[c->rank] * ext(*rt->d), rn[c->rank], *rt->d); else { ck_dt(st); ck_count(sn); ck_buf(sb, sn, *st->d, false, "send"); v = packed(sb, sn, *st->d); }
  CollSlot *s = coll_enter(c, K_GATHER, root, -1, v.data(), v.size());
  if (me) { ck_dt(rt); coll_all(s); for (int i = 0; i < c->size; i++) { long got = s->contrib[i] ? (long)s->contrib[i]->len : 0; if (got > rt->d->size * rn[i]) BAD("truncate", "MPI_Gatherv: %ld bytes from rank %d into %ld", got, i, rt->d->size * rn[i]); ck_buf((uint8_t *)rb + dp[i] * ext(*rt->d), rn[i], *rt->d, true, "receive"); if (got) unpack(*rt->d, (uint8_t *)rb + (long)dp[i] * ext(*rt->d), rn[i], s->contrib[i]->data, got); } }
  coll_leave(c, s); return 0;
}
int MPI_Scatterv(const void *sb, const int *sn, const int *dp, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  ENTER("MPI_Scatterv"); ck_comm(c); if (root < 0 || root >= c->size) BAD("bad-rank", "MPI_Scatterv with root %d of %d", root, c->size); bool me = c->rank == root; vector<uint8_t> v; vector<long> off(c->size + 1, 0);
  if (me) { ck_dt(st); v.resize(8 * (c->size + 1)); for (int i = 0; i < c->size; i++) { vector<uint8_t> k = packed((const uint8_t *)sb + (long)dp[i] * ext(*st->d), sn[i], *st->d); off[i] = (long)v.size(); v.insert(v.end(), k.begin(), k.end()); } off[c->size] = (long)v.size(); memcpy(v.data(), off.data(), 8 * (c->size + 1)); }
  CollSlot *s = coll_enter(c, K_SCATTER, root, -1, me ? v.data() : nullptr, v.size()); s_block(g_fn, [&] { return s->has[root]; });
  if (rb != MPI_IN_PLACE) { memcpy(off.data(), s->contrib[root]->data, 8 * (c->size + 1)); long k = off[c->rank + 1] - off[c->rank]; ck_dt(rt); ck_count(rn); if (k > rt->d->size * rn) BAD("truncate", "MPI_Scatterv: %ld bytes into %ld", k, rt->d->size * rn); ck_buf(rb, rn, *rt->d, true, "receive"); if (k) unpack(*rt->d, rb, rn, s->contrib[root]->data + off[c->rank], k); }
  coll_leave(c, s); return 0;
}
int MPI_Alltoallv(const void *sb, const int *sn, const int *sd, MPI_Datatype st, void *rb, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) {
  ENTER("MPI_Alltoallv"); ck_comm(c); ck_dt(st); ck_dt(rt); vector<uint8_t> v(8 * (c->size + 1)); vector<long> off(c->size + 1, 0);
  for (int i = 0; i < c->size; i++) { ck_count(sn[i]); ck_count(rn[i]); vector<uint8_t> k = packed((const uint8_t *)sb + (long)sd[i] * ext(*st->d), sn[i], *st->d); off[i] = (long)v.size(); v.insert(v.end(), k.begin(), k.end()); } off[c->size] = (long)v.size(); memcpy(v.data(), off.data(), 8 * (c->size + 1));
  CollSlot *s = coll_enter(c, K_ALLTOALL, -1, -1, v.data(), v.size()); coll_all(s);
  for (int i = 0; i < c->size; i++) { const long *o = (const long *)s->contrib[i]->data; long a, b; memcpy(&a, o + c->rank, 8); memcpy(&b, o + c->rank + 1, 8); if (b - a != rt->d->size * rn[i]) BAD("collective-size-mismatch", "MPI_Alltoallv: %ld bytes from rank %d, %ld expected", b - a, i, rt->d->size * rn[i]); if (b > a) unpack(*rt->d, (uint8_t *)rb + (long)rd[i] * ext(*rt->d), rn[i], s->contrib[i]->data + a); }
  coll_leave(c, s); return 0;
}
static int do_rs(const void *sb, void *rb, const int *cnt, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  ck_comm(c); long tot = 0, mine = 0; for (int i = 0; i < c->size; i++) { ck_count(cnt[i]); if (i < c->rank) mine += cnt[i]; tot += cnt[i]; } ck_red(op, t, tot, sb, rb); const void *in = sb == MPI_IN_PLACE ? rb : sb;
  vector<uint8_t> v = packed(in, tot, *t->d); CollSlot *s = coll_enter(c, K_RSB, -1, tot * t->d->size * 64 + (op->fn ? 63 : op->id), v.data(), v.size()); if (!s->contrib[c->rank]) s->contrib[c->rank] = blob_new(nullptr, 0); coll_all(s);
  if (!s->result) { vector<uint8_t> o; combine(op, t, s, 0, c->size - 1, tot, o); s->result = blob_new(o.data(), o.size()); } unpack(*t->d, rb, cnt[c->rank], s->result->data + mine * t->d->size); coll_leave(c, s); return 0;
}
int MPI_Reduce_scatter_block(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { ENTER("MPI_Reduce_scatter_block"); ck_comm(c); vector<int> k(c->size, n); return do_rs(sb, rb, k.data(), t, op, c); }
int MPI_Reduce_scatter(const void *sb, void *rb, const int *n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { ENTER("MPI_Reduce_scatter"); return do_rs(sb, rb, n, t, op, c); }
int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm) { ENTER("MPI_Bsend"); BAD("bsend-no-buffer", "MPI_Bsend without an attached buffer"); }
int MPI_Cancel(MPI_Request *r) { ENTER("MPI_Cancel"); ck_req(*r); if ((*r)->kind == 3 && !(*r)->done) { for (size_t i = 0; i < g_recvs->size(); i++) if ((*g_recvs)[i] == *r) g_recvs->erase(g_recvs->begin() + i--); (*r)->done = true; (*r)->st.sim_cancelled = 1; } return 0; }
int MPI_Test_cancelled(const MPI_Status *st, int *f) { ENTER_LOCAL("MPI_Test_cancelled"); *f = st->sim_cancelled; return 0; }
static int some(bool wait, int n, MPI_Request *r, int *cnt, int *ix, MPI_Status *st) {
  ck_count(n); bool any = false; for (int i = 0; i < n; i++) if (r[i]) any = true; if (!any) { *cnt = MPI_UNDEFINED; return 0; }
  int k = 0; auto scan = [&] { for (int i = 0; i < n; i++) if (r[i] && peek_test(r[i])) { if (k && S->rrng.below(2)) continue; ix[k] = i; req_finish(&r[i], st ? &st[k] : nullptr); k++; } return k > 0; };
  if (wait) s_block(g_fn, [&] { if (scan()) return true; for (int i = 0; i < n; i++) if (r[i] && r[i]->kind == 1) local_complete(r[i]->win, r[i]->op); return scan(); }); else scan();
  *cnt = k; return 0;
}
int MPI_Waitsome(int n, MPI_Request *r, int *c, int *ix, MPI_Status *st) { ENTER("MPI_Waitsome"); return some(true, n, r, c, ix, st); }
int MPI_Testsome(int n, MPI_Request *r, int *c, int *ix, MPI_Status *st) { ENTER("MPI_Testsome"); return some(false, n, r, c, ix, st); }
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  ENTER("MPI_Sendrecv_replace"); Msg *m = send_start(b, n, t, d, stag, c, false); MPI_Request r = irecv(b, n, t, s, rtag, c); req_wait(&r, st);
  if (m && m->sync) { s_block(g_fn, [&] { recv_progress(); return m->consumed; }); msg_release(m); } return 0;
}
int MPI_Mprobe(int s, int tag, MPI_Comm c, MPI_Message *o, MPI_Status *st) { ENTER("MPI_Mprobe"); ck_comm(c); ck_rank(c, s, true); ck_tag(tag, true); Msg *m = nullptr; s_block(g_fn, [&] { m = match(c, s, tag, true); return m != nullptr; }); if (st) { st->MPI_SOURCE = comm_rank_of(c, m->src); st->MPI_TAG = m->tag; st->sim_bytes = (long)m->b->len; } *o = new simmpi_msg_s{m, c}; return 0; }
int MPI_Improbe(int s, int tag, MPI_Comm c, int *f, MPI_Message *o, MPI_Status *st) { ENTER("MPI_Improbe"); ck_comm(c); ck_rank(c, s, true); ck_tag(tag, true); recv_progress(); Msg *m = match(c, s, tag, false); *f = m && msg_visible(m); if (*f) { Msg **pp = &S->inbox[g_rank]; while (*pp != m) pp = &(*pp)->next; *pp = m->next; m->next = nullptr; m->matched = 1; s_bump(); if (st) { st->MPI_SOURCE = comm_rank_of(c, m->src); st->MPI_TAG = m->tag; st->sim_bytes = (long)m->b->len; } *o = new simmpi_msg_s{m, c}; } return 0; }
int MPI_Mrecv(void *b, int n, MPI_Datatype t, MPI_Message *o, MPI_Status *st) { ENTER("MPI_Mrecv"); ck_dt(t); ck_count(n); if (!*o) BAD("null-message", "MPI_Mrecv on MPI_MESSAGE_NULL"); ck_buf(b, n, *t->d, true, "receive"); recv_take((*o)->m, b, n, *t->d, (*o)->c, st); delete *o; *o = MPI_MESSAGE_NULL; return 0; }
int MPI_Comm_idup(MPI_Comm c, MPI_Comm *o, MPI_Request *r) {
  ENTER("MPI_Comm_idup"); ck_comm(c); CollSlot *s = coll_enter(c, K_DUP, -1, -1, nullptr, 0);
  *r = creq([=] { return s->arrived == s->expected; }, [=] { if (!s->state) { s->state = 1; *(Ctx **)&s->out[0][0] = ctx_new(c->ctx->ranks, c->ctx->n); } Ctx *x = *(Ctx **)&s->out[0][0]; coll_leave(c, s); *o = comm_new(x); }); return 0;
}
int MPI_Comm_remote_group(MPI_Comm c, MPI_Group *g) { ENTER_LOCAL("MPI_Comm_remote_group"); ck_comm(c); if (!c->inter) BAD("remote-group-intra", "MPI_Comm_remote_group on an intracommunicator"); const int *r = c->side ? c->ctx->ranks : c->ctx->ranksB; *g = group_new(vector<int>(r, r + (c->side ? c->ctx->n : c->ctx->nB))); return 0; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler *e) { ENTER_LOCAL("MPI_Comm_create_errhandler"); *e = MPI_ERRORS_RETURN; return 0; }
int MPI_Win_create_errhandler(MPI_Win_errhandler_function *, MPI_Errhandler *e) { ENTER_LOCAL("MPI_Win_create_errhandler"); *e = MPI_ERRORS_RETURN; return 0; }
int MPI_Comm_call_errhandler(MPI_Comm c, int code) { ENTER_LOCAL("MPI_Comm_call_errhandler"); ck_comm(c); return MPI_Abort(c, code); }
static int g_next_keyval = 1000; struct KV { MPI_Comm_copy_attr_function *cp; MPI_Comm_delete_attr_function *del; void *extra; }; static std::map<int, KV> *g_kv; static std::map<std::pair<MPI_Comm, int>, void *> *g_attr;
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *cp, MPI_Comm_delete_attr_function *del, int *k, void *x) { ENTER_LOCAL("MPI_Comm_create_keyval"); if (!g_kv) { g_kv = new std::map<int, KV>; g_attr = new std::map<std::pair<MPI_Comm, int>, void *>; } *k = g_next_keyval++; (*g_kv)[*k] = {cp, del, x}; return 0; }
int MPI_Comm_free_keyval(int *k) { ENTER_LOCAL("MPI_Comm_free_keyval"); *k = MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_attr(MPI_Comm c, int k, void *v) { ENTER_LOCAL("MPI_Comm_set_attr"); ck_comm(c); if (!g_kv || !g_kv->count(k)) BAD("bad-keyval", "MPI_Comm_set_attr with keyval %d", k); (*g_attr)[{c, k}] = v; return 0; }
int MPI_Comm_delete_attr(MPI_Comm c, int k) { ENTER_LOCAL("MPI_Comm_delete_attr"); ck_comm(c); if (g_attr) g_attr->erase({c, k}); return 0; }
int MPI_Comm_get_name(MPI_Comm c, char *n, int *l) { ENTER_LOCAL("MPI_Comm_get_name"); ck_comm(c); *l = snprintf(n, MPI_MAX_OBJECT_NAME, "comm"); return 0; }
int MPI_Comm_set_info(MPI_Comm c, MPI_Info i) { ENTER_LOCAL("MPI_Comm_set_info"); ck_comm(c); ck_info(i); return 0; }
int MPI_Comm_get_info(MPI_Comm c, MPI_Info *i) { ENTER_LOCAL("MPI_Comm_get_info"); ck_comm(c); *i = new simmpi_info_s(); live(*i); C.info++; return 0; }
int MPI_Win_set_info(MPI_Win w, MPI_Info i) { ENTER_LOCAL("MPI_Win_set_info"); ck_win(w); ck_info(i); return 0; }
int MPI_Win_get_info(MPI_Win w, MPI_Info *i) { ENTER_LOCAL("MPI_Win_get_info"); ck_win(w); *i = new simmpi_info_s(); (*i)->kv = w->info; live(*i); C.info++; return 0; }
int MPI_Group_range_incl(MPI_Group g, int n, int rg[][3], MPI_Group *o) { vector<int> v; for (int i = 0; i < n; i++) for (int r = rg[i][0]; rg[i][2] > 0 ? r <= rg[i][1] : r >= rg[i][1]; r += rg[i][2]) v.push_back(r); return MPI_Group_incl(g, (int)v.size(), v.data(), o); }
int MPI_Group_range_excl(MPI_Group g, int n, int rg[][3], MPI_Group *o) { vector<int> v; for (int i = 0; i < n; i++) for (int r = rg[i][0]; rg[i][2] > 0 ? r <= rg[i][1] : r >= rg[i][1]; r += rg[i][2]) v.push_back(r); return MPI_Group_excl(g, (int)v.size(), v.data(), o); }
int MPI_Info_get_nthkey(MPI_Info i, int n, char *k) { ENTER_LOCAL("MPI_Info_get_nthkey"); ck_info(i); if (n < 0 || n >= (int)i->kv.size()) BAD("info-nthkey", "MPI_Info_get_nthkey(%d)", n); auto it = i->kv.begin(); std::advance(it, n); snprintf(k, MPI_MAX_INFO_KEY, "%s", it->first.c_str()); return 0; }
int MPI_Info_get_valuelen(MPI_Info i, const char *k, int *l, int *f) { ENTER_LOCAL("MPI_Info_get_valuelen"); ck_info(i); auto it = i->kv.find(k); *f = it != i->kv.end(); if (*f) *l = (int)it->second.size(); return 0; }
int MPI_Op_commutative(MPI_Op o, int *c) { ENTER_LOCAL("MPI_Op_commutative"); ck_op(o); *c = o->commute; return 0; }
int MPI_Type_get_name(MPI_Datatype t, char *n, int *l) { ENTER_LOCAL("MPI_Type_get_name"); ck_old(t); *l = snprintf(n, MPI_MAX_OBJECT_NAME, "type%d", t->id); return 0; }
int MPI_Type_set_name(MPI_Datatype t, const char *) { ENTER_LOCAL("MPI_Type_set_name"); ck_old(t); return 0; }
}
