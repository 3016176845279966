#include "h.h"
static void plan(Case &c) { cfg_sim(c, 1, 6); cfg_env(c, 2); }
static void run(int me, Case &c) {
  armci_start(c); int n = c.n;
  void *p[SIM_MAXR]; ARMCI_Malloc(p, 64 * n); memset(p[me], 0, 64 * n); ARMCI_Barrier();
  char b[64]; memset(b, me + 1, 64); for (int t = 0; t < n; t++) ARMCI_Put(b, (char *)p[t] + 64 * me, 64, t);
  ARMCI_Barrier();
  for (int t = 0; t < n; t++) for (int k = 0; k < n; k++) { char g[64]; ARMCI_Get((char *)p[t] + 64 * k, g, 64, t); for (int i = 0; i < 64; i++) CHECK(g[i] == k + 1, "smoke", "bad byte"); }
  ARMCI_Barrier(); ARMCI_Free(p[me]); armci_stop(c);
}
static ScnReg r("SMOKE", plan, run);
