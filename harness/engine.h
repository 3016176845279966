// Plan-based memory engine: random race-free one-sided programs checked against a byte-exact model.
#pragma once
#include "h.h"
enum { TY_BYTE, TY_INT, TY_LNG, TY_FLT, TY_DBL, TY_CPL, TY_DCP, TY_N };
extern const int TY_SIZE[TY_N]; extern const int TY_ACC[TY_N];
enum { OP_PUT, OP_GET, OP_ACC, OP_RMW };
enum { F_CONTIG, F_STRIDED, F_VECTOR, F_VALUE, F_FLAG, F_SFLAG, F_N };
enum { S_OP, S_DONE, S_WAIT, S_TEST, S_WAITALL, S_WAITPROC, S_FENCE, S_HINIT, S_HUNSET, S_PROGRESS };
struct Seg { long loff; int region; long roff; int len; };
struct Desc { int bytes; int first, n; };
struct Op {
  int kind, form, target, region, ty; bool nb; int handle;          // handle -1: NULL
  int lkind; long lsize; int lregion; long lbase;                   // 0 private, 1 own slice of a region, 2 ARMCI_Malloc_local
  int skew;                                                         // misalignment of the private buffer
  int levels; int lstr[16], rstr[16], cnt[17]; long rbase;
  std::vector<Seg> segs; std::vector<Desc> descs;
  std::vector<uint8_t> ldata;          // private: initial contents of the whole local buffer
  std::vector<uint8_t> lafter;         // private: contents after completion
  uint8_t scale[16]; int fflag_region; long flag_off; int flag_val;
  int rmwop, rmwval; long rmwexp;
  // run time
  uint8_t *lbuf = nullptr, *lraw = nullptr; bool completed = false; void *keep1 = nullptr;
};
struct Step { int what, a, b; };
struct Region { int group; bool memdev; std::vector<int> members; std::vector<long> size; int ty; int born, dies; int freeform; int slot(int w) const { for (size_t i = 0; i < members.size(); i++) if (members[i] == w) return (int)i; return -1; } };
struct Phase { std::vector<std::vector<Op>> ops; std::vector<std::vector<Step>> steps; std::vector<int> alloc, free_; int sync; int verify_reads; uint64_t rseed; int opensync; };
struct Focus {
  int nmin = 1, nmax = 5, phases = 3, maxops = 6, env = 1, nreg = 3, ngroups = 0;
  int w_form[F_N] = {10, 10, 10, 4, 3, 2}; int w_op[4] = {10, 8, 8, 1};
  int p_nb = 40, p_global = 0, p_big = 6, p_local = 10, p_overlap = 10, p_multi = 0, p_many = 4, p_typed = 60, p_zero = 5, dynamic = 1, p_adjacent = 30, p_oddstride = 0, p_self = 0; std::vector<std::pair<const char *, const char *>> fenv; long maxslice = 3000;
};
struct EPlan {
  std::vector<std::vector<int>> groups; std::vector<int> gparent; std::vector<Region> regs; std::vector<Phase> ph; Focus f; int nh = 4;
  std::vector<std::vector<std::vector<std::vector<uint8_t>>>> expect;   // [phase][region][member] (state after the phase)
  std::vector<std::vector<std::vector<uint8_t>>> init;                  // initial contents per region
};
void engine_plan(Case &c, const Focus &f);
void engine_run(int me, Case &c);
void engine_body(int me, Case &c);     // between init and finalize
