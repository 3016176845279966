// Runner: generates cases from seeds, supervises them and classifies what the monitors saw.
#include "h.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/file.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <regex>

const char *CN_NAME[CN_N] = {"oracle_evaluations", "puts", "gets", "accumulates", "rmw", "lock_ops", "messages", "collectives", "allocations", "frees", "groups", "nonblocking_ops", "waits", "fences", "direct_accesses", "readbacks", "bytes_compared", "rejections", "acceptances", "inits", "context_switches", "mpi_calls", "rma_ops", "rma_deferred", "rma_reordered", "sched_steps", "log_events"};
Stats *ST; Oob *OOB; int names_use_p; NamesShm *NM; const char *NAMES[NAMES_N] = {
#include "../prof/names.inc"
};
extern "C" void tool_seen(int id) { if (NM) __atomic_fetch_add(&NM->tool[id], 1, __ATOMIC_RELAXED); }
static std::vector<Scenario> &scns() { static std::vector<Scenario> v; return v; }
void scn_register(const Scenario &s) { scns().push_back(s); }
void feat(uint64_t h) { h = sim_mix(h, 99); __atomic_fetch_or(&ST->feat[(h >> 3) % sizeof ST->feat], (uint8_t)(1 << (h & 7)), __ATOMIC_RELAXED); }
static void sched_feat(uint64_t h) { __atomic_fetch_or(&ST->sched[(h >> 3) % sizeof ST->sched], (uint8_t)(1 << (h & 7)), __ATOMIC_RELAXED); }
static uint64_t popcount(const uint8_t *p, size_t n) { uint64_t c = 0; for (size_t i = 0; i < n; i++) c += __builtin_popcount(p[i]); return c; }
std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

struct Fail { std::string kind, key, msg; int rank; };
static std::vector<Fail> *g_post;
void post_fail(const char *kind, const char *key, const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); g_post->push_back({kind, key, b, -1}); }
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += (char)c; } return o + "\""; }

static const Scenario *g_scn; static Case *g_case;
static void rank_entry(int r, void *) {
  for (auto &e : g_case->env) setenv(e.first.c_str(), e.second.c_str(), 1);
  g_scn->run(r, *g_case);
}
static std::string first_frame(const std::string &o, size_t from) {     // first stack frame in the library sources
  static const std::regex re("#[0-9]+ 0x[0-9a-f]+ in ([A-Za-z_0-9]+) [^\n]*/(src|profiler)/([a-z_\\-]+\\.c)");
  std::smatch m; std::string t = o.substr(from, 6000);
  if (std::regex_search(t, m, re)) return m[1].str();
  static const std::regex rt("#[0-9]+ ([A-Za-z_0-9]+) [^\n]*/(src|profiler)/([a-z_\\-]+\\.c)");     // TSan's format
  if (std::regex_search(t, m, rt)) return m[1].str();
  return "?";
}
static std::string norm(std::string s) { std::string o; bool dig = false; for (char c : s) { if (isdigit((unsigned char)c)) { if (!dig) o += '#'; dig = true; } else { dig = false; o += c; } } if (o.size() > 120) o.resize(120); return o; }
static void classify(Case &c, SimOutcome &o, std::vector<Fail> &f, bool &incon) {
  incon = false; bool mon = false;
  for (int i = 0; i < o.nreports; i++) { SimReport &r = o.reports[i]; if (!strncmp(r.kind, "HARNESS", 7) || !strncmp(r.key, "HARNESS", 7)) { incon = true; fprintf(stderr, "harness limit: %s\n", r.msg); continue; } f.push_back({r.kind, r.key, fmt("[rank %d, step %llu] %s", r.rank, (unsigned long long)r.step, r.msg), r.rank}); mon = true; }
  size_t p = o.output.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) { std::string k = o.output.substr(p + 25, 40); k = k.substr(0, k.find_first_of(" \n:(")); std::string fr = first_frame(o.output, p); if (k == "SEGV" || fr != "?" || true) f.push_back({"ASAN", k + ":" + fr, o.output.substr(p, 1500), -1}); mon = true; }
  if ((p = o.output.find("runtime error: ")) != std::string::npos) { size_t b = o.output.rfind('\n', p); std::string line = o.output.substr(b == std::string::npos ? 0 : b + 1, 300); line = line.substr(0, line.find('\n')); std::string msg = o.output.substr(p + 15, 160); msg = msg.substr(0, msg.find('\n')); f.push_back({"UBSAN", norm(msg) + ":" + first_frame(o.output, p), line, -1}); mon = true; }
  if ((p = o.output.find("WARNING: ThreadSanitizer: ")) != std::string::npos) { std::string k = o.output.substr(p + 26, 40); k = k.substr(0, k.find_first_of("(\n")); f.push_back({"TSAN", k + ":" + first_frame(o.output, p), o.output.substr(p, 3000), -1}); mon = true; }
  if ((p = o.output.find("handle is corrupt")) != std::string::npos && !mon && !c.expect_abort) { size_t b = o.output.rfind('\n', p); f.push_back({"ORACLE", "handle-corrupt", "the library reports that the state of a handle is corrupt: " + o.output.substr(b == std::string::npos ? 0 : b + 1, 200), -1}); mon = true; }
  if (incon && !mon) return;
  if (o.deadlock) { if (!mon && !c.allow_deadlock) f.push_back({"HANG", "deadlock", o.deadlock_info, -1}); return; }
  if (o.steplimit) { if (!mon) f.push_back({"HANG", "no-quiescence", o.deadlock_info, -1}); return; }
  if (o.aborted) { if (!mon && !c.expect_abort) { size_t e = o.output.size() > 600 ? o.output.size() - 600 : 0; std::string tail = o.output.substr(e); size_t q = o.output.find("ARMCI assert fail"); size_t q2 = o.output.find("ARMCI Error"); size_t st = std::min(q, q2); std::string head = st != std::string::npos ? o.output.substr(st, 200) : tail; head = head.substr(0, head.find('\n')); f.push_back({"ABORT", norm(head), fmt("rank %d called MPI_Abort(%d): ", o.abort_rank, o.abort_code) + (st != std::string::npos ? o.output.substr(st, 500) : tail), o.abort_rank}); } return; }
  if (o.timeout) { if (!mon) f.push_back({"TIMEOUT", "wall-clock", "no progress within the wall-clock limit", -1}); return; }
  if (o.died && !mon && WIFSIGNALED(o.status) && WTERMSIG(o.status) == SIGKILL) { incon = true; fprintf(stderr, "rank %d was killed from outside (memory shortage?)\n", o.dead_rank); return; }
  if (o.died && !mon) { std::string tail = o.output.size() > 600 ? o.output.substr(o.output.size() - 600) : o.output; size_t q = o.output.find("Assertion"); std::string k = WIFSIGNALED(o.status) ? fmt("signal-%d", WTERMSIG(o.status)) : fmt("exit-%d", WEXITSTATUS(o.status)); if (q != std::string::npos) k += ":" + norm(o.output.substr(q, 100)); f.push_back({"CRASH", k, fmt("rank %d: ", o.dead_rank) + tail, o.dead_rank}); }
}
static void run_case(const Scenario &s, const std::string &variant, uint64_t seed, uint64_t index, int thorough, bool verbose, FILE *out, bool retry = true) {
  Case c; c.scn = s.name; c.variant = variant; c.seed = sim_mix(seed, index * 2654435761ull + 17); c.index = index; c.thorough = thorough; c.rng.s = c.seed; c.sim.seed = c.seed;
  s.plan(c); c.sim.nranks = c.n;
  sim_setup(c.sim);
  OOB = (Oob *)sim_shared(sizeof(Oob)); NM = (NamesShm *)sim_shared(sizeof(NamesShm)); names_use_p = 0; if (c.shm_size) c.shm = sim_shared(c.shm_size);
  g_scn = &s; g_case = &c; SimOutcome o; std::vector<Fail> f; bool incon; g_post = &f;
  sim_run(rank_entry, nullptr, c.wall, o);
  classify(c, o, f, incon);
  if (f.empty() && !incon && s.post) s.post(c, o);
  __atomic_fetch_add(&ST->cases, 1, __ATOMIC_RELAXED);
  cnt(CN_SWITCH, o.switches); cnt(CN_MPI, o.n_mpi); cnt(CN_RMA, o.n_rma); cnt(CN_DEFER, o.n_deferred); cnt(CN_REORD, o.n_reordered); cnt(CN_STEP, o.steps); sched_feat(o.sched_hash);
  bool timeout = !f.empty() && f[0].kind == "TIMEOUT";
  if (verbose) { fprintf(stderr, "case %llu n=%d strat=%d steps=%llu rma=%llu died=%d aborted=%d deadlock=%d\nenv:", (unsigned long long)index, c.n, c.sim.strat, (unsigned long long)o.steps, (unsigned long long)o.n_rma, o.died, o.aborted, o.deadlock); for (auto &e : c.env) fprintf(stderr, " %s=%s", e.first.c_str(), e.second.c_str()); fprintf(stderr, "\n%s\n--- output\n%s\n---\n", c.desc.c_str(), o.output.c_str()); for (auto &x : f) fprintf(stderr, "FAIL %s %s: %s\n", x.kind.c_str(), x.key.c_str(), x.msg.c_str()); }
  munmap(OOB, sizeof(Oob)); munmap(NM, sizeof(NamesShm)); NM = nullptr; if (c.shm) munmap(c.shm, c.shm_size);
  if (timeout && retry && c.wall < 100) { sim_teardown(); run_case(s, variant, seed, index, thorough, verbose, out, false); return; }
  if (incon) __atomic_fetch_add(&ST->inconclusive, 1, __ATOMIC_RELAXED);
  if (index < 2 && !verbose) {          // what a case of this run looks like, for the evidence file
    std::string envs; for (auto &e : c.env) envs += (envs.empty() ? "" : " ") + e.first + "=" + e.second;
    std::string line = fmt("{\"sample\":1,\"case\":%llu,\"ranks\":%d,\"scheduler_steps\":%llu,\"context_switches\":%llu,\"rma_operations\":%llu,\"rma_deferred\":%llu,\"rma_reordered\":%llu,\"schedule_hash\":\"%016llx\",", (unsigned long long)index, c.n, (unsigned long long)o.steps, (unsigned long long)o.switches, (unsigned long long)o.n_rma, (unsigned long long)o.n_deferred, (unsigned long long)o.n_reordered, (unsigned long long)o.sched_hash) + "\"env\":" + jstr(envs) + ",\"program\":" + jstr(c.desc.substr(0, 500)) + "}\n";
    int fd = fileno(out); flock(fd, LOCK_EX); ssize_t k = write(fd, line.data(), line.size()); (void)k; flock(fd, LOCK_UN);
  }
  if (!f.empty()) {
    __atomic_fetch_add(&ST->fails, 1, __ATOMIC_RELAXED);
    std::string envs; for (auto &e : c.env) envs += (envs.empty() ? "" : ",") + jstr(e.first + "=" + e.second);
    std::string line;
    for (auto &x : f) line += fmt("{\"scn\":%s,\"case\":%llu,\"n\":%d,\"kind\":%s,\"key\":%s,\"env\":[%s],", jstr(s.name).c_str(), (unsigned long long)index, c.n, jstr(x.kind).c_str(), jstr(x.key).c_str(), envs.c_str()) + "\"desc\":" + jstr(c.desc.substr(0, 600)) + ",\"msg\":" + jstr(x.msg.substr(0, 2500)) + "}\n";
    int fd = fileno(out); flock(fd, LOCK_EX); ssize_t k = write(fd, line.data(), line.size()); (void)k; flock(fd, LOCK_UN);
  }
  sim_teardown();
}
int main(int argc, char **argv) {
  std::string scn, variant = "ompi4", outp = "/dev/stdout"; uint64_t seed = 1, cases = 100; long one = -1; int jobs = 8, thorough = 0, maxfail = 6; double tmax = 1e9;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--scn") scn = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 10); else if (a == "--case") one = atol(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--time") tmax = atof(nx().c_str()); else if (a == "--variant") variant = nx(); else if (a == "--out") outp = nx(); else if (a == "--thorough") thorough = 1; else if (a == "--maxfail") maxfail = atoi(nx().c_str()); else if (a == "--list") { for (auto &s : scns()) puts(s.name); return 0; } }
  const Scenario *s = nullptr; for (auto &x : scns()) if (scn == x.name) s = &x;
  if (!s) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 2; }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  ST = (Stats *)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sim_cov_init(ST->cov, sizeof ST->cov);
  FILE *out = fopen(outp.c_str(), "a"); if (!out) return 2; setvbuf(out, nullptr, _IONBF, 0);
  if (one >= 0) { run_case(*s, variant, seed, one, thorough, true, out, false); return ST->fails != 0; }
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  std::vector<pid_t> ws;
  for (int j = 0; j < jobs; j++) { pid_t p = fork(); if (p == 0) {
      for (;;) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > tmax || ST->fails >= (uint64_t)maxfail) break; uint64_t k = __atomic_fetch_add(&ST->next_case, 1, __ATOMIC_RELAXED); if (k >= cases) break; run_case(*s, variant, seed, k, thorough, false, out); }
      _exit(0); } ws.push_back(p); }
  int bad = 0; for (pid_t p : ws) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  uint64_t cov = 0; for (size_t i = 0; i < sizeof ST->cov; i++) cov += ST->cov[i];
  std::string line = fmt("{\"summary\":1,\"scn\":%s,\"variant\":%s,\"seed\":%llu,\"cases\":%llu,\"fails\":%llu,\"inconclusive\":%llu,\"workers_lost\":%d,\"distinct_situations\":%llu,\"distinct_schedules\":%llu,\"edges\":%llu,\"edges_total\":%zu", jstr(scn).c_str(), jstr(variant).c_str(), (unsigned long long)seed, (unsigned long long)ST->cases, (unsigned long long)ST->fails, (unsigned long long)ST->inconclusive, bad, (unsigned long long)popcount(ST->feat, sizeof ST->feat), (unsigned long long)popcount(ST->sched, sizeof ST->sched), (unsigned long long)cov, sim_cov_total());
  for (int i = 0; i < CN_N; i++) line += fmt(",\"%s\":%llu", CN_NAME[i], (unsigned long long)ST->cn[i]);
  line += "}\n"; ssize_t k = write(fileno(out), line.data(), line.size()); (void)k;
  return ST->fails ? 1 : 0;
}
