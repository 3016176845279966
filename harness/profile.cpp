// The profiling interface (C29): both names of every operation, interposition, and the supplied profiling library.
#include "h.h"
#include "util.h"
#include "engine.h"
#include <unistd.h>
void kitchen(int me, int n, Rng shared, Case &c); int do_init(int kind, int level, MPI_Comm comm);
static int nid(const char *s) { for (int i = 0; i < NAMES_N; i++) if (!strcmp(NAMES[i], s)) return i; return -1; }
struct ProfPlan { std::shared_ptr<void> eng; int cycles, kind[3], nest[3], body[3]; bool use_p; std::string file; };
static void prof_plan(Case &c) {
  auto P = std::make_shared<ProfPlan>(); Rng pr{sim_mix(c.seed, 31)}; Focus f; f.env = 1; f.ngroups = 1; f.nmax = 4; f.phases = 2; f.maxops = 5; f.p_big = 2; engine_plan(c, f); P->eng = c.plan; c.plan = P; Rng &r = pr;
  P->cycles = r.chance(30) ? 2 : 1; for (int i = 0; i < 3; i++) { P->kind[i] = (int)r.below(5); P->nest[i] = r.chance(30) ? 1 + (int)r.below(2) : 0; P->body[i] = (int)r.below(3); } bool prof = c.variant.find("-prof") != std::string::npos; P->use_p = !prof && r.chance(40);
  if (prof) { env_set(c, "ARMCI_PROFILE", r.pick({"VERBOSE", "HISTOGRAM", "BASIC"})); int o = (int)r.below(5); if (o == 0) env_set(c, "ARMCI_PROFILE_OUTPUT", "/nonexistent/dir/profile"); else if (o == 1) { char b[512]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); b[k > 0 ? k : 0] = 0; P->file = fmt("%s.prof.%d", b, (int)getpid()); env_set(c, "ARMCI_PROFILE_OUTPUT", P->file); } }
  c.desc = fmt("%s names, %d cycle(s): init kind %d nested %d body %d; ", P->use_p ? "profiling" : "normal", P->cycles, P->kind[0], P->nest[0], P->body[0]) + c.desc;
}
static void prof_run(int me, Case &c) {
  auto P = std::static_pointer_cast<ProfPlan>(c.plan); c.plan = P->eng; names_use_p = P->use_p; MPI_Init(nullptr, nullptr);
  for (int k = 0; k < P->cycles; k++) {
    CHECK(do_init(P->kind[k], MPI_THREAD_SINGLE, MPI_COMM_WORLD) == 0 && ARMCI_Initialized(), "init", "initialisation of kind %d failed", P->kind[k]);
    for (int i = 0; i < P->nest[k]; i++) CHECK(do_init(P->kind[(k + 1 + i) % 3], MPI_THREAD_SINGLE, MPI_COMM_WORLD) == 0, "init", "nested init failed");
    Rng sh{sim_mix(c.seed, 90 + k)}; if (P->body[k] != 1) engine_body(me, c); for (int i = 0; i < P->nest[k]; i++) CHECK(ARMCI_Finalize() == 0 && ARMCI_Initialized(), "finalize", "inner finalize"); if (P->body[k] != 0) kitchen(me, c.n, sh, c);
    { std::vector<void *> b(c.n), e(c.n); CHECK(ARMCI_Malloc(b.data(), 128) == 0, "rc", "malloc"); CHECK(ARMCI_Malloc_memdev(e.data(), 64, "dev") == 0, "rc", "malloc"); int t = (me + 1) % c.n; ARMCI_Access_begin(b[me]); memset(b[me], 0, 128); ARMCI_Access_end(b[me]); ARMCI_Barrier();
      armci_hdl_t h; ARMCI_INIT_HANDLE(&h); CHECK(ARMCI_PutValueInt(5, b[t], t) == 0 && ARMCI_PutValueLong(-6, (char *)b[t] + 8, t) == 0 && ARMCI_PutValueFloat(1.5f, (char *)b[t] + 16, t) == 0 && ARMCI_PutValueDouble(2.25, (char *)b[t] + 24, t) == 0, "rc", "put value"); CHECK(ARMCI_NbPutValueInt(7, (char *)b[t] + 32, t, &h) == 0, "rc", "nb put value"); ARMCI_Wait(&h); ARMCI_INIT_HANDLE(&h); ARMCI_NbPutValueLong(8, (char *)b[t] + 40, t, &h); ARMCI_Wait(&h); ARMCI_NbPutValueFloat(9.5f, (char *)b[t] + 48, t, nullptr); ARMCI_NbPutValueDouble(-10.5, (char *)b[t] + 56, t, nullptr); ARMCI_WaitAll(); ARMCI_Fence(t);
      int gi = ARMCI_GetValueInt(b[t], t); long gl = ARMCI_GetValueLong((char *)b[t] + 8, t); float gf = ARMCI_GetValueFloat((char *)b[t] + 16, t); double gd = ARMCI_GetValueDouble((char *)b[t] + 24, t); CHECK(gi == 5 && gl == -6 && gf == 1.5f && gd == 2.25, "values", "value gets returned %d %ld %g %g", gi, gl, gf, gd);
      ARMCI_Barrier(); CHECK(*(int *)((char *)b[me] + 32) == 7 && *(long *)((char *)b[me] + 40) == 8 && *(float *)((char *)b[me] + 48) == 9.5f && *(double *)((char *)b[me] + 56) == -10.5, "values", "nonblocking value puts: %d %ld %g %g at process %d", *(int *)((char *)b[me] + 32), *(long *)((char *)b[me] + 40), *(float *)((char *)b[me] + 48), *(double *)((char *)b[me] + 56), me);
      int fl = 0; double x[4] = {1, 2, 3, 4}; int st[1] = {16}, ct[2] = {8, 2}; ARMCI_Put_flag(x, (char *)b[t] + 64, 16, (int *)((char *)b[t] + 96), 77, t); ARMCI_PutS_flag(x, st, (char *)b[t] + 64, st, ct, 1, (int *)((char *)b[t] + 100), 78, t); ARMCI_Fence(t); ARMCI_WaitProc(t); (void)fl; armci_msg_barrier(); ARMCI_Group w; ARMCI_Group_get_world(&w); armci_msg_group_barrier(&w); ARMCI_Barrier(); int f0 = *(int *)((char *)b[me] + 96), f1 = *(int *)((char *)b[me] + 100); CHECK(f0 == 77 && f1 == 78, "values", "flags %d %d", f0, f1);
      ARMCI_Barrier(); ARMCI_Free(b[me]); ARMCI_Free_memdev(e[me]); }
    CHECK(ARMCI_Finalize() == 0 && !ARMCI_Initialized(), "finalize", "finalize"); rank_barrier(c);
  }
  if (P->use_p || c.variant.find("-tool") != std::string::npos) for (int i = 0; i < NAMES_N; i++) { long u = NM->user[i], t = NM->tool[i], exp = P->use_p ? 0 : u; CHECK(t == exp, "interposition", "the program called %s %ld times by its %s name, an interposed tool saw %ld calls", NAMES[i], u, P->use_p ? "profiling" : "normal", t); }
  rank_barrier(c); feat(fh({130, (uint64_t)P->use_p, (uint64_t)P->kind[0], (uint64_t)P->body[0], (uint64_t)P->nest[0], (uint64_t)P->cycles})); MPI_Finalize();
}
static void prof_post(Case &c, SimOutcome &o) {
  auto P = std::static_pointer_cast<ProfPlan>(c.plan); if (c.variant.find("-prof") == std::string::npos) return; std::string out = o.output;
  auto PP = std::dynamic_pointer_cast<ProfPlan>(P); (void)PP;
  struct Cat { const char *label; std::vector<const char *> names; }; static const Cat cats[] = {
    {"Put", {"ARMCI_Put", "ARMCI_PutS", "ARMCI_PutV", "ARMCI_Put_flag", "ARMCI_PutS_flag"}}, {"Get", {"ARMCI_Get", "ARMCI_GetS", "ARMCI_GetV"}}, {"Acc", {"ARMCI_Acc", "ARMCI_AccS", "ARMCI_AccV"}}, {"NbPut", {"ARMCI_NbPut", "ARMCI_NbPutS", "ARMCI_NbPutV"}}, {"NbGet", {"ARMCI_NbGet", "ARMCI_NbGetS", "ARMCI_NbGetV"}}, {"NbAcc", {"ARMCI_NbAcc", "ARMCI_NbAccS", "ARMCI_NbAccV"}}, {"Rmw", {"ARMCI_Rmw"}}, {"Barrier", {"ARMCI_Barrier", "armci_msg_barrier", "armci_msg_group_barrier"}}, {"Wait", {"ARMCI_Wait", "ARMCI_Test", "ARMCI_WaitAll", "ARMCI_WaitProc"}}, {"Fence", {"ARMCI_Fence", "ARMCI_AllFence"}}, {"Locks", {"ARMCI_Create_mutexes", "ARMCI_Destroy_mutexes", "ARMCI_Lock", "ARMCI_Unlock"}}, {"Global memory management", {"ARMCI_Malloc", "ARMCI_Free", "ARMCI_Malloc_memdev", "ARMCI_Malloc_group_memdev", "ARMCI_Free_memdev"}}, {"Local memory management", {"ARMCI_Malloc_local", "ARMCI_Free_local"}}};
  std::string file; for (auto &e : c.env) if (e.first == "ARMCI_PROFILE_OUTPUT" && e.second[1] != 'n') file = e.second; if (!file.empty()) { FILE *f = fopen(file.c_str(), "r"); if (!f) { post_fail("ORACLE", "profile-file", "the profile was not written to %s", file.c_str()); return; } char b[4096]; size_t k; out += "\n"; while ((k = fread(b, 1, sizeof b, f)) > 0) out.append(b, k); fclose(f); unlink(file.c_str()); }
  size_t p = 0; int dumps = 0; while ((p = out.find("profiling results:", p)) != std::string::npos) dumps++, p++;
  for (auto &ct : cats) {
    long calls = 0, bytes = 0; for (auto n : ct.names) { int i = nid(n); if (i < 0) continue; calls += NM->user[i]; bytes += NM->bytes[i]; }
    long rc = 0, rb = 0, hist = 0; bool has_hist = false; std::string lab = std::string("\n") + ct.label + " called "; p = 0;
    while ((p = out.find(lab, p)) != std::string::npos) { p += lab.size(); rc += atol(out.c_str() + p); size_t e = out.find('\n', p); std::string line = out.substr(p, e - p); size_t q = line.find("total bytes"); if (q != std::string::npos) { q = line.find('=', q); rb += atol(line.c_str() + q + 1); }
      size_t h = e; if (out.compare(e + 1, 9, " size (B)") == 0) { has_hist = true; h = out.find('\n', e + 1); for (int row = 0; row < 9; row++) { size_t l0 = h + 1; h = out.find('\n', l0); std::string l = out.substr(l0, h - l0); size_t s = l.find(": "); if (s == std::string::npos) break; const char *w = l.c_str() + s + 2; for (int k = 0; k < 10; k++) { hist += strtol(w, (char **)&w, 10); if (*w == ',') w++; } } } }
    if (dumps != (int)0 && rc != calls) post_fail("ORACLE", "profile-calls", "the program made %ld calls of kind %s, the profile reports %ld", calls, ct.label, rc);
    if (rb != bytes) post_fail("ORACLE", "profile-bytes", "the program's %s calls named %ld bytes, the profile reports %ld", ct.label, bytes, rb);
    if (has_hist && hist != rc) post_fail("ORACLE", "profile-histogram", "the histogram of %s holds %ld calls of %ld", ct.label, hist, rc);
  }
  if (!dumps) post_fail("ORACLE", "profile-missing", "no profile was written");
}
static ScnReg r_prof("PROF", prof_plan, prof_run, prof_post);
