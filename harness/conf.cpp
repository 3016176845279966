// Interpretation of the environment options (C23): what the library reports and does for valid, odd and malformed values.
#include "h.h"
#include "util.h"
#include <climits>
struct ConfPlan { bool mt; int verbose; };
static const char *YES[] = {"1", "t", "T", "y", "Y", "true", "TRUE", "yes", "10", "1abc", "tomorrow"}, *NO[] = {"0", "f", "F", "n", "N", "no", "false", "", "2", "on", "-1", " 1", "ON", "enabled", "x"};
static const char *BOOLS[] = {"ARMCI_IOV_CHECKS", "ARMCI_USE_WIN_ALLOCATE", "ARMCI_MSG_BARRIER_SYNCS", "ARMCI_EXPLICIT_NB_PROGRESS", "ARMCI_RMA_ATOMICITY", "ARMCI_NO_FLUSH_LOCAL", "ARMCI_RMA_NOCHECK", "ARMCI_USE_REQUEST_ATOMICS", "ARMCI_FLUSH_REQUEST_ATOMICS", "ARMCI_CACHE_RANK_TRANSLATION", "ARMCI_USE_ALLOC_SHM", "ARMCI_DISABLE_SHM_ACC", "ARMCI_USE_SAME_OP", "ARMCI_DEBUG_ALLOC", "ARMCI_NONCOLLECTIVE_GROUPS", "ARMCI_PROGRESS_THREAD", "ARMCI_FLUSH_BARRIERS"};
static bool is_on(const Case &c, const char *k, bool def) { for (auto &e : c.env) if (e.first == k) { char x = e.second.empty() ? 0 : e.second[0]; return x == '1' || x == 't' || x == 'T' || x == 'y' || x == 'Y'; } return def; }
static bool is_set(const Case &c, const char *k) { for (auto &e : c.env) if (e.first == k) return true; return false; }
static long num(const Case &c, const char *k, long def) { for (auto &e : c.env) if (e.first == k) { long v = strtol(e.second.c_str(), nullptr, 10); return v; } return def; }
static int cint(long v) { return v > INT_MAX ? INT_MAX : v < INT_MIN ? INT_MIN : (int)v; }
static bool ompi(const Case &c) { return !c.is_mpich(); }
static bool progress(const Case &c) { return c.variant != "mpich-fast"; }      // built with support for the progress thread
static bool ompi4(const Case &c) { return c.variant.compare(0, 5, "ompi4") == 0; }
static void conf_plan(Case &c) {
  cfg_sim(c, 1, 3); auto P = std::make_shared<ConfPlan>(); c.plan = P; Rng &r = c.rng; P->mt = r.chance(30); P->verbose = r.chance(90) ? 1 : r.chance(50) ? 2 : 0; c.thread_level = P->mt ? MPI_THREAD_MULTIPLE : MPI_THREAD_SINGLE;
  env_set(c, "ARMCI_VERBOSE", P->verbose == 1 ? r.pick({"1", "1", "01", "1x"}) : P->verbose == 2 ? r.pick({"2", "3", "99999999999"}) : r.pick({"0", "-3", "yes"})); int pct = (int)r.pick({5, 30, 60, 100});
  for (auto k : BOOLS) if (r.chance(k[6] == 'F' && k[8] == 'U' && k[12] == 'B' ? pct / 4 : pct)) env_set(c, k, r.chance(50) ? YES[r.below(sizeof YES / sizeof *YES)] : NO[r.below(sizeof NO / sizeof *NO)]);
  auto pk = [&](const char *k, std::initializer_list<const char *> l) { if (r.chance(pct)) env_set(c, k, r.pick(l)); };
  pk("ARMCI_STRIDED_METHOD", {"IOV", "DIRECT", "iov", "", "AUTO", "DIRECTX", "IO"}); pk("ARMCI_IOV_METHOD", {"AUTO", "CONSRV", "BATCHED", "DIRECT", "auto", "", "BATCH", "DIRECT2"}); pk("ARMCI_SHR_BUF_METHOD", {"COPY", "NOGUARD", "copy", "LOCK", "", "COPYX"});
  pk("ARMCI_IOV_BATCHED_LIMIT", {"0", "1", "2", "3", "7", "100", "-1", "-5", "2147483647", "2147483648", "-2147483649", "4294967297", "abc", "", "3x", " 4", "+2"}); pk("ARMCI_IOV_DTYPE_CHUNK", {"0", "1", "5", "256", "-1", "-2147483648", "2147483648", "99999999999", "x", "8k"});
  pk("ARMCI_ACCUMULATE_GRANULARITY", {"0", "1", "64", "1048576", "2147483647", "2147483648", "-1", "-4294967295", "junk", "12 13"}); pk("ARMCI_PROGRESS_USLEEP", {"0", "1", "50", "1000000", "2500000", "-7", "x", "2147483648", "-2147483648", "-99999999999"});
  pk("ARMCI_SHM_LIMIT", {"0", "1", "1000", "1024", "4096", "1048576", "1000000", "3000000000", "1073741824", "1099511627776", "1125899906842624", "1000000000000", "1000000000000000", "12345", "1536", "2000", "1e9", "lots", "4G"}); pk("ARMCI_RMA_ORDERING", {"rar,raw,war,waw", "none", "rar", "waw,war", "", "raw", "rar,raw,war,waw,xxx", "rar,raw,war,waw,none,none", "rar, raw,  war,  waw"});
  if (P->mt && is_on(c, "ARMCI_PROGRESS_THREAD", false)) c.sim.max_steps = 1000000;
  c.desc = fmt("%d ranks, thread level %s, verbose %d", c.n, P->mt ? "multiple" : "single", P->verbose);
}
static std::string info(const char *k) { char b[128] = "(unset)"; sim_info_lookup(k, b, sizeof b); return b; }
static void conf_run(int me, Case &c) {
  Rng r{sim_mix(c.seed, 5)}; bool same_op = is_on(c, "ARMCI_USE_SAME_OP", false); int n = c.n; armci_start(c); int t = (me + 1) % n; std::vector<void *> a(n), b(n);
  long wc = sim_calls("MPI_Win_create"), wa = sim_calls("MPI_Win_allocate"); long z = r.pick({8, 120, 128, 129, 136, 500, 4096}); CHECK(ARMCI_Malloc(a.data(), z) == 0, "rc", "malloc"); bool alloc = is_on(c, "ARMCI_USE_WIN_ALLOCATE", true);
  CHECK((sim_calls("MPI_Win_allocate") > wa) == alloc && (sim_calls("MPI_Win_create") > wc) == !alloc, "window-type", "ARMCI_USE_WIN_ALLOCATE is %d but the window was %s", alloc, alloc ? "created from separate memory" : "allocated");
  if (sim_nwins() == 1) {
    long g = cint(num(c, "ARMCI_ACCUMULATE_GRANULARITY", 1048576)); if (g < 0) g = 1048576; if (z <= 128) g = 1; std::string s = info("mpi_accumulate_granularity"); CHECK(s == fmt("%ld", g), "info-granularity", "mpi_accumulate_granularity of a %ld byte window is %s, expected %ld", z, s.c_str(), g);
    s = info("alloc_shm"); CHECK(s == (is_on(c, "ARMCI_USE_ALLOC_SHM", true) ? "true" : "false"), "info-alloc-shm", "alloc_shm is %s", s.c_str()); s = info("disable_shm_accumulate"); CHECK((s == "true") == is_on(c, "ARMCI_DISABLE_SHM_ACC", false), "info-shm-acc", "disable_shm_accumulate is %s", s.c_str()); s = info("accumulate_ops"); CHECK((s == "same_op") == same_op, "info-same-op", "accumulate_ops is %s", s.c_str());
    std::string ord = is_set(c, "ARMCI_RMA_ORDERING") ? c.getenv("ARMCI_RMA_ORDERING") : "rar,raw,war,waw"; s = info("accumulate_ordering"); if (ord.size() < 20) CHECK(s == (ord.empty() ? "(unset)" : ord), "info-ordering", "accumulate_ordering is '%s', configured '%s'", s.c_str(), ord.c_str());
  }
  long nk = sim_calls("lock with NOCHECK"), ck = sim_calls("lock without NOCHECK"); if (is_on(c, "ARMCI_RMA_NOCHECK", true)) CHECK(nk > 0 && ck == 0, "nocheck", "%ld locks with and %ld without NOCHECK although it is enabled", nk, ck); else CHECK(nk == 0 && ck > 0, "nocheck", "%ld locks with and %ld without NOCHECK although it is disabled", nk, ck);
  if (is_on(c, "ARMCI_DEBUG_ALLOC", false)) for (long i = 0; i < z; i++) CHECK(((uint8_t *)a[me])[i] == 0, "debug-alloc", "byte %ld of a new allocation is not zero with ARMCI_DEBUG_ALLOC", i);
  // one blocking vector put: the batch limit bounds the operations in flight
  int segs = 1 + (int)r.below(24); CHECK(ARMCI_Malloc(b.data(), 32 * segs + 64) == 0, "rc", "malloc"); memset(a[me], 0, z); memset(b[me], 0, 32 * segs + 64); ARMCI_Barrier(); std::vector<double> src(2 * segs + 1); std::vector<void *> sp(segs), dp(segs); for (int i = 0; i < segs; i++) { src[2 * i] = me * 1000 + i; src[2 * i + 1] = -i; sp[i] = &src[2 * i]; dp[i] = (char *)b[t] + 32 * i; }
  armci_giov_t v = {sp.data(), dp.data(), 16, segs}; bool limited = true; long lim = cint(num(c, "ARMCI_IOV_BATCHED_LIMIT", 0)); if (ompi(c)) limited = true; else { std::string m = c.getenv("ARMCI_IOV_METHOD"); limited = m != "AUTO" && m != "DIRECT" && m != "CONSRV"; }
  long fl = sim_calls("MPI_Win_flush_local"), fa = sim_calls("MPI_Win_flush_local_all"); sim_rma_hwm(1); CHECK(ARMCI_PutV(&v, 1, t) == 0, "rc", "PutV"); cnt(CN_PUT); long h = sim_rma_hwm(1); if (limited && lim > 0 && t != me) CHECK(h <= lim, "batch-limit", "%ld operations were outstanding in one blocking vector put with ARMCI_IOV_BATCHED_LIMIT=%ld", h, lim);
  if (is_set(c, "ARMCI_IOV_METHOD") && !ompi(c) && c.getenv("ARMCI_IOV_METHOD") == "CONSRV" && t != me) CHECK(h <= 1, "conservative", "%ld operations were outstanding in one vector put with the conservative method", h);
  double one = 1; CHECK(ARMCI_AccV(ARMCI_ACC_DBL, &one, &v, 1, t) == 0, "rc", "AccV"); ARMCI_Fence(t); int st[1] = {32}, ls[1] = {16}, ct[2] = {16, segs}; CHECK(ARMCI_PutS(src.data(), ls, b[t], st, ct, 1, t) == 0, "rc", "PutS"); 
  if (is_on(c, "ARMCI_NO_FLUSH_LOCAL", false)) CHECK(sim_calls("MPI_Win_flush_local") == fl && sim_calls("MPI_Win_flush_local_all") == fa, "no-flush-local", "local flushes are used with ARMCI_NO_FLUSH_LOCAL");
  // atomics: request based or not
  long ra = sim_calls("MPI_Rget_accumulate"), fo = sim_calls("MPI_Fetch_and_op"), q = 0; long rf = sim_calls("MPI_Win_flush"); CHECK(ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &q, a[t], 5, t) == 0, "rc", "Rmw"); cnt(CN_RMW); bool req = is_on(c, "ARMCI_USE_REQUEST_ATOMICS", !ompi4(c)); ra = sim_calls("MPI_Rget_accumulate") - ra; fo = sim_calls("MPI_Fetch_and_op") - fo; rf = sim_calls("MPI_Win_flush") - rf;
  CHECK(req ? ra > 0 && fo == 0 : ra == 0, "request-atomics", "request-based atomics are %s, but an atomic used %ld Rget_accumulate and %ld Fetch_and_op", req ? "enabled" : "disabled", ra, fo); if (req && is_on(c, "ARMCI_FLUSH_REQUEST_ATOMICS", false)) CHECK(rf > 0, "flush-request-atomics", "no flush after a request-based atomic");
  armci_msg_barrier(); ARMCI_Barrier();
  int s = (me + n - 1) % n; CHECK(*(long *)a[me] == 5 && q == 0, "value", "the counter is %ld after one addition of 5", *(long *)a[me]); for (int i = 0; i < segs; i++) { double *d = (double *)((char *)b[me] + 32 * i); CHECK(d[0] == s * 1000 + i && d[1] == -i, "value", "segment %d holds %g %g, expected %d %d", i, d[0], d[1], s * 1000 + i, -i); }
  feat(fh({113, (uint64_t)z, (uint64_t)(h > 3), (uint64_t)lim, (uint64_t)req, (uint64_t)alloc})); ARMCI_Barrier(); ARMCI_Free(b[me]); ARMCI_Free(a[me]); armci_stop(c);
}
static std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; return s.substr(i); }
static void conf_post(Case &c, SimOutcome &o) {
  ConfPlan &p = *plan_of<ConfPlan>(c); std::map<std::string, std::vector<std::string>> tab; std::vector<std::string> warn; size_t b = 0;
  while (b < o.output.size()) { size_t e = o.output.find('\n', b); if (e == std::string::npos) e = o.output.size(); std::string l = o.output.substr(b, e - b); b = e + 1; if (l.find("ARMCI Warning") != std::string::npos || l.find("ARMCI_Warning") != std::string::npos) warn.push_back(l); else if (l.compare(0, 2, "  ") == 0) { size_t q = l.find(" = "); if (q != std::string::npos) tab[trim(l.substr(0, q))].push_back(trim(l.substr(q + 3))); else if (l.size() > 2 && l[l.size() - 1] == '=') tab[trim(l.substr(0, l.size() - 1))].push_back(""); } }
  auto warned = [&](const char *what) { for (auto &w : warn) if (w.find(what) != std::string::npos) return true; return false; };
  auto need = [&](const char *what, bool expect, const char *var) { cnt(CN_EVAL); if (warned(what) != expect) post_fail("ORACLE", fmt("warning-%s", what).c_str(), "%s='%s': %s", var, c.getenv(var).c_str(), expect ? "no warning was given for the invalid value" : "a valid value was warned about"); };
  auto in = [&](const char *k, std::initializer_list<const char *> l) { std::string v = c.getenv(k); for (auto x : l) if (v == x) return true; return false; };
  auto val = [&](const char *label, const std::string &exp) { cnt(CN_EVAL); if (p.verbose <= 0) return; auto it = tab.find(label); if (it == tab.end()) post_fail("ORACLE", fmt("report-%s", label).c_str(), "the report does not mention %s", label); else if (it->second.size() != 1) post_fail("ORACLE", fmt("report-%s", label).c_str(), "%s is reported %zu times", label, it->second.size()); else if (it->second[0] != exp) post_fail("ORACLE", fmt("report-%s", label).c_str(), "%s is reported as '%s', expected '%s'", label, it->second[0].c_str(), exp.c_str()); };
  auto tf = [&](const char *label, const char *var, bool def) { val(label, is_on(c, var, def) ? "TRUE" : "FALSE"); };
  bool reported = o.output.find("ARMCI-MPI initialized with") != std::string::npos; if (reported != (p.verbose > 0)) { post_fail("ORACLE", "verbose", "ARMCI_VERBOSE='%s' but the configuration report was %s", c.getenv("ARMCI_VERBOSE").c_str(), reported ? "printed" : "not printed"); return; }
  if (reported && o.output.find(fmt("ARMCI-MPI initialized with %d process%s,", c.n, c.n > 1 ? "es" : "")) == std::string::npos) post_fail("ORACLE", "report-processes", "wrong number of processes reported");
  bool pt = is_on(c, "ARMCI_PROGRESS_THREAD", false); if (!progress(c)) pt = false; need("requires MPI_THREAD_MULTIPLE", pt && !p.mt, "ARMCI_PROGRESS_THREAD"); if (!p.mt) pt = false; if (progress(c)) val("PROGRESS_THREAD", pt ? "ENABLED" : "DISABLED"); if (c.build("-fast")) val("NO_SEATBELTS", "ENABLED"); long us = cint(num(c, "ARMCI_PROGRESS_USLEEP", 0)); need("not a time machine", pt && us < 0, "ARMCI_PROGRESS_USLEEP"); if (us < 0) us = std::min(-us, (long)INT_MAX); if (pt) val("PROGRESS_USLEEP", fmt("%ld", us));
  val("EXPLICIT_NB_PROGRESS", is_on(c, "ARMCI_EXPLICIT_NB_PROGRESS", true) ? "ENABLED" : "DISABLED"); val("WINDOW type used", is_on(c, "ARMCI_USE_WIN_ALLOCATE", true) ? "ALLOCATE" : "CREATE");
  long lim = num(c, "ARMCI_SHM_LIMIT", 0); if (lim > 0) { static const char *B[] = {"", "KiB", "MiB", "GiB", "TiB"}, *D[] = {"", "KB", "MB", "GB", "TB"}; bool p2 = !(lim & (lim - 1)); int k = 0; long base = p2 ? 1024 : 1000; while (k < 4 && lim % base == 0) lim /= base, k++; val("SHM_LIMIT", trim(fmt("%ld %s", lim, p2 ? B[k] : D[k]))); } else val("SHM_LIMIT", "UNLIMITED");
  std::string m = c.getenv("ARMCI_STRIDED_METHOD"); bool ok = m == "IOV" || m == "DIRECT"; need("ARMCI_STRIDED_METHOD", is_set(c, "ARMCI_STRIDED_METHOD") && !ok, "ARMCI_STRIDED_METHOD"); val("STRIDED_METHOD", ok ? m : ompi4(c) ? "IOV" : "DIRECT");
  std::string v = c.getenv("ARMCI_IOV_METHOD"); ok = v == "AUTO" || v == "CONSRV" || v == "BATCHED" || v == "DIRECT"; std::string eff = ok ? v : "BATCHED"; if (ompi(c)) eff = "BATCHED"; need("ARMCI_IOV_METHOD", is_set(c, "ARMCI_IOV_METHOD") && (!ok || (ompi(c) && v != "BATCHED")), "ARMCI_IOV_METHOD"); val("IOV_METHOD", eff);
  long bl = cint(num(c, "ARMCI_IOV_BATCHED_LIMIT", 0)); need("ARMCI_IOV_BATCHED_LIMIT", bl < 0, "ARMCI_IOV_BATCHED_LIMIT"); if (eff == "BATCHED" || eff == "AUTO") val("IOV_BATCHED_LIMIT", bl > 0 ? fmt("%ld", bl) : "UNLIMITED");
  long ch = cint(num(c, "ARMCI_IOV_DTYPE_CHUNK", !ompi(c) ? 256 : ompi4(c) ? 0 : 1)); need("ARMCI_IOV_DTYPE_CHUNK", ch < 0, "ARMCI_IOV_DTYPE_CHUNK"); if (eff == "DIRECT" || eff == "AUTO") val("IOV_DTYPE_CHUNK", ch > 0 ? fmt("%ld", ch) : "UNLIMITED");
  tf("RMA_ATOMICITY", "ARMCI_RMA_ATOMICITY", false); tf("NO_FLUSH_LOCAL", "ARMCI_NO_FLUSH_LOCAL", false); tf("RMA_NOCHECK", "ARMCI_RMA_NOCHECK", true); tf("MSG_BARRIER_SYNCS", "ARMCI_MSG_BARRIER_SYNCS", false); tf("USE_REQUEST_ATOMICS", "ARMCI_USE_REQUEST_ATOMICS", !ompi4(c)); tf("FLUSH_REQUEST_ATOMICS", "ARMCI_FLUSH_REQUEST_ATOMICS", false);
  tf("USE_ALLOC_SHM", "ARMCI_USE_ALLOC_SHM", true); tf("DISABLE_SHM_ACC", "ARMCI_DISABLE_SHM_ACC", false); tf("USE_SAME_OP", "ARMCI_USE_SAME_OP", false); tf("IOV_CHECKS", "ARMCI_IOV_CHECKS", false); tf("NONCOLLECTIVE_GROUPS", "ARMCI_NONCOLLECTIVE_GROUPS", c.variant == "ompi4-fast"); tf("CACHE_RANK_TRANSLATION", "ARMCI_CACHE_RANK_TRANSLATION", true); tf("DEBUG_ALLOC", "ARMCI_DEBUG_ALLOC", false);
  long g = cint(num(c, "ARMCI_ACCUMULATE_GRANULARITY", 1048576)); need("ARMCI_ACCUMULATE_GRANULARITY", g < 0, "ARMCI_ACCUMULATE_GRANULARITY"); val("ACCUMULATE_GRANULARITY", fmt("%ld", g < 0 ? 1048576 : g));
  std::string ord = is_set(c, "ARMCI_RMA_ORDERING") ? c.getenv("ARMCI_RMA_ORDERING") : "rar,raw,war,waw"; need("ARMCI_RMA_ORDERING", ord.size() > 19, "ARMCI_RMA_ORDERING"); val("RMA_ORDERING", trim(ord.substr(0, 19)));
  std::string sb = c.getenv("ARMCI_SHR_BUF_METHOD"); ok = sb == "COPY" || sb == "NOGUARD"; need("ARMCI_SHR_BUF_METHOD", is_set(c, "ARMCI_SHR_BUF_METHOD") && !ok, "ARMCI_SHR_BUF_METHOD"); val("SHR_BUF_METHOD", ok ? sb : "NOGUARD");
  need("ARMCI_FLUSH_BARRIERS", is_set(c, "ARMCI_FLUSH_BARRIERS"), "ARMCI_FLUSH_BARRIERS");
}
static ScnReg r_conf("CONF", conf_plan, conf_run, conf_post);
