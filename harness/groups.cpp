// Groups: creation, translation, default group, non-members, termination (C15, C16) and identity queries (C32).
#include "h.h"
#include "util.h"
extern "C" {
#include <message.h>
void ARMCIX_Get_world_comm(MPI_Comm *);
}
enum { GA_CREATE, GA_CHILD, GA_SPLIT, GA_DUP, GA_DEFAULT, GA_FREE, GA_USE, GA_VERIFY, GA_BARRIER };
struct GNode { std::vector<int> m; bool alive = true; uint64_t nonmember = 0; };        // members in rank order; processes holding a non-member handle
struct GAct { int kind, g; std::vector<int> list; std::vector<std::vector<int>> made; std::vector<int> ids; std::vector<int> color, key; uint64_t also = 0; uint64_t who = 0; bool bydefault = false; uint64_t yields = 0; };
struct GPlan { std::vector<GNode> nodes; std::vector<GAct> acts; std::vector<int> nn; };
static void grp_plan(Case &c, int focus) {
  cfg_sim(c, 1, focus == 2 ? 6 : 7, 14); cfg_env(c, 1); auto P = std::make_shared<GPlan>(); c.plan = P; Rng &r = c.rng; GPlan &p = *P;
  if (focus == 1 ? r.chance(70) : r.chance(30)) env_set(c, "ARMCI_NONCOLLECTIVE_GROUPS", "1");
  if (r.chance(30)) env_set(c, "ARMCI_CACHE_RANK_TRANSLATION", "0");
  bool nonc = c.on("ARMCI_NONCOLLECTIVE_GROUPS");
  p.nodes.push_back({range_vec(c.n)}); std::vector<int> def(c.n, 0);
  int na = 3 + (int)r.below(c.thorough ? 24 : 12);
  auto usedef = [&](int g) { for (int x : def) if (x == g) return true; return false; };
  for (int k = 0; k < na; k++) {
    std::vector<int> live; for (size_t g = 0; g < p.nodes.size(); g++) if (p.nodes[g].alive && !p.nodes[g].m.empty()) live.push_back((int)g);
    GAct a{}; a.kind = (int)r.pick({GA_CREATE, GA_CHILD, GA_CHILD, GA_CHILD, GA_SPLIT, GA_DUP, GA_DEFAULT, GA_DEFAULT, GA_FREE, GA_USE, GA_USE, GA_VERIFY, GA_BARRIER}); a.yields = r.next();
    if (focus == 1) a.kind = (int)r.pick({GA_CHILD, GA_CHILD, GA_CHILD, GA_CREATE, GA_USE, GA_FREE, GA_SPLIT});
    a.g = live[r.below(live.size())]; auto mem = p.nodes[a.g].m;
    if (a.kind == GA_CREATE || a.kind == GA_CHILD) {
      if (a.kind == GA_CREATE) { // every member of the group must have it as its default group
        std::vector<int> cand; for (int g : live) { bool ok = true; for (int w : p.nodes[g].m) if (def[w] != g) ok = false; if (ok) cand.push_back(g); } if (cand.empty()) continue; a.g = cand[r.below(cand.size())]; mem = p.nodes[a.g].m; a.bydefault = true; }
      a.list = range_vec((int)mem.size()); shuffle(r, a.list); a.list.resize(r.chance(20) ? mem.size() : r.chance(15) ? 1 : 1 + r.below(mem.size())); if (nonc || r.chance(50)) std::sort(a.list.begin(), a.list.end());
      GNode n; for (int x : a.list) n.m.push_back(mem[x]); a.also = nonc ? (r.chance(40) ? r.next() : 0) : ~0ull;     // non-members that call as well
      for (int w : mem) if (std::find(n.m.begin(), n.m.end(), w) == n.m.end() && a.also >> w & 1) n.nonmember |= 1ull << w;
      a.ids = {(int)p.nodes.size()}; p.nodes.push_back(n);
    } else if (a.kind == GA_SPLIT) {
      int nc = 1 + (int)r.below(3); std::map<int, std::vector<std::pair<std::pair<int, int>, int>>> by; a.color.assign(c.n, -7); a.key.assign(c.n, 0); uint64_t und = 0;
      for (size_t i = 0; i < mem.size(); i++) { int w = mem[i]; a.color[w] = r.chance(8) ? -7 : (int)r.below(nc) * 13; a.key[w] = (int)r.range(-3, 3); if (a.color[w] == -7) und |= 1ull << w; else by[a.color[w]].push_back({{a.key[w], (int)i}, w}); }
      a.ids.assign(c.n, -1); int first = -1; for (auto &b : by) { std::sort(b.second.begin(), b.second.end()); GNode n; for (auto &x : b.second) { n.m.push_back(x.second); a.ids[x.second] = (int)p.nodes.size(); } if (first < 0) first = (int)p.nodes.size(); p.nodes.push_back(n); }
      if (und) { GNode n; n.nonmember = und; for (int w : mem) if (und >> w & 1) a.ids[w] = (int)p.nodes.size(); p.nodes.push_back(n); }
    } else if (a.kind == GA_DUP) { GNode n; n.m = mem; a.ids = {(int)p.nodes.size()}; p.nodes.push_back(n); }
    else if (a.kind == GA_DEFAULT) { for (int w : mem) if (r.chance(80)) { a.who |= 1ull << w; } if (r.chance(60)) a.who = ~0ull; for (int w : mem) if (a.who >> w & 1) def[w] = a.g; }
    else if (a.kind == GA_FREE) { if (a.g == 0 || usedef(a.g)) continue; p.nodes[a.g].alive = false; }
    p.acts.push_back(a);
  }
  c.desc = fmt("%d ranks, %zu groups, %zu group actions, %s creation", c.n, p.nodes.size(), p.acts.size(), nonc ? "noncollective" : "collective");
}
static int slot_of(const std::vector<int> &m, int w) { for (size_t i = 0; i < m.size(); i++) if (m[i] == w) return (int)i; return -1; }
static void check_group(int me, GNode &n, ARMCI_Group *G, int id) {
  int rank = -77, size = -77, s = slot_of(n.m, me), rc = ARMCI_Group_rank(G, &rank); ARMCI_Group_size(G, &size);
  if (s < 0) { CHECK(rc != 0 && rank == -1 && size == 0, "nonmember-query", "group %d: process %d is not a member but rank query gives %d (return %d), size %d", id, me, rank, rc, size); return; }
  CHECK(rc == 0 && rank == s, "group-rank", "group %d: process %d has rank %d (return %d), expected %d", id, me, rank, rc, s);
  CHECK(size == (int)n.m.size(), "group-size", "group %d: size %d at process %d, expected %zu", id, size, me, n.m.size());
  for (int i = 0; i < size; i++) { int ab = ARMCI_Absolute_id(G, i); CHECK(ab == n.m[i], "absolute-id", "group %d: rank %d translates to process %d at process %d, expected %d", id, i, ab, me, n.m[i]); }
  feat(fh({90, n.m.size(), (uint64_t)s, n.nonmember != 0}));
}
void check_identity(int me, int n) {
  static double last = 0; double t = armci_timer(); CHECK(t >= last, "timer", "timer went from %.9f to %.9f", last, t); last = t;
  CHECK(armci_msg_me() == me && armci_msg_nproc() == n, "identity", "process id %d of %d, expected %d of %d", armci_msg_me(), armci_msg_nproc(), me, n);
  ARMCI_Group w; ARMCI_Group_get_world(&w); int rk = -1, sz = -1; ARMCI_Group_rank(&w, &rk); ARMCI_Group_size(&w, &sz); CHECK(rk == me && sz == n, "world-group", "world group rank %d size %d, expected %d %d", rk, sz, me, n);
  MPI_Comm wc; ARMCIX_Get_world_comm(&wc); int mr = -1, ms = -1; MPI_Comm_rank(wc, &mr); MPI_Comm_size(wc, &ms); CHECK(mr == me && ms == n, "world-comm", "world communicator rank %d size %d, expected %d %d", mr, ms, me, n);
  armci_domain_t D = ARMCI_DOMAIN_SMP; int nd = armci_domain_count(D), my = armci_domain_my_id(D); CHECK(nd >= 1 && nd <= n && my >= 0 && my < nd, "domain", "my domain %d of %d", my, nd);
  int tot = 0; std::vector<int> seen(n, 0);
  for (int d = 0; d < nd; d++) { int np = armci_domain_nprocs(D, d); CHECK(np >= 1, "domain", "domain %d has %d processes", d, np); tot += np; for (int l = 0; l < np; l++) { int g = armci_domain_glob_proc_id(D, d, l); CHECK(g >= 0 && g < n && !seen[g], "domain", "domain %d process %d is global process %d", d, l, g); seen[g] = 1; CHECK(armci_domain_id(D, g) == d, "domain", "process %d is listed in domain %d but reported in domain %d", g, d, armci_domain_id(D, g)); CHECK(!!armci_domain_same_id(D, g) == (d == my), "domain", "same-domain answer for process %d (domain %d, mine %d) is wrong", g, d, my); } }
  CHECK(tot == n, "domain", "domains hold %d processes of %d", tot, n); CHECK(armci_domain_id(D, me) == my, "domain", "my domain is %d but process %d is in domain %d", my, me, armci_domain_id(D, me)); CHECK(armci_domain_nprocs(D, -1) == armci_domain_nprocs(D, my), "domain", "size of my domain: %d by -1, %d by id", armci_domain_nprocs(D, -1), armci_domain_nprocs(D, my));
  // same-node answers: reflexive, symmetric, and the processes of one domain share a node
  std::vector<int> mine(n), all((size_t)n * n, 0); for (int q = 0; q < n; q++) { mine[q] = !!ARMCI_Same_node(q); all[(size_t)me * n + q] = mine[q]; } CHECK(mine[me], "same-node", "process %d is not on its own node", me);
  for (int q = 0; q < n; q++) if (armci_domain_same_id(D, q)) CHECK(mine[q], "same-node", "process %d shares a domain but not a node with %d", q, me);
  armci_msg_igop(all.data(), n * n, (char *)"+"); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) CHECK(all[(size_t)a * n + b] == all[(size_t)b * n + a], "same-node", "same-node answers of %d and %d differ", a, b);
  { ARMCI_Group w; ARMCI_Group_get_world(&w); CHECK(ARMCI_Uses_shm() == ARMCI_Uses_shm_grp(&w), "uses-shm", "the two shared memory queries differ for the world"); }
  t = armci_timer(); CHECK(t >= last, "timer", "timer went from %.9f to %.9f", last, t); last = t; feat(fh({91, (uint64_t)n, (uint64_t)me}));
}
static void grp_run(int me, Case &c) {
  GPlan &p = *plan_of<GPlan>(c); Rng r{sim_mix(c.seed, 1000 + me)}; armci_start(c); UserTraffic ut; ut.start(c.seed, me, c.n, MPI_COMM_WORLD); if (r.s % 2 || true) check_identity(me, c.n);
  std::vector<ARMCI_Group> G(p.nodes.size()); for (auto &g : G) memset((void *)&g, 0xAB, sizeof g); ARMCI_Group_get_world(&G[0]); std::vector<char> have(p.nodes.size(), 0); have[0] = 1; int def = 0;
  std::vector<void *> base(c.n); CHECK(ARMCI_Malloc(base.data(), 64 * c.n) == 0, "malloc-rc", "ARMCI_Malloc failed"); memset(base[me], 0, 64 * c.n); ARMCI_Barrier();
  int k = 0;
  for (auto &a : p.acts) { k++;
    auto &m = p.nodes[a.g].m; int s = slot_of(m, me);
    for (int i = (int)(a.yields >> (me * 3) & 3); i > 0; i--) sim_yield();
    switch (a.kind) {
    case GA_CREATE: case GA_CHILD: { int id = a.ids[0]; bool in = slot_of(p.nodes[id].m, me) >= 0; if (s < 0 || (!in && !(a.also >> me & 1))) break; std::vector<int> l = a.list; cnt(CN_GROUP);
      if (a.bydefault) ARMCI_Group_create((int)l.size(), l.data(), &G[id]); else ARMCI_Group_create_child((int)l.size(), l.data(), &G[id], &G[a.g]); CHECK(l == a.list, "list-modified", "the caller's process list was modified"); have[id] = 1; check_group(me, p.nodes[id], &G[id], id); break; }
    case GA_SPLIT: { if (s < 0) break; int id = a.ids[me]; cnt(CN_GROUP); CHECK(ARMCIX_Group_split(&G[a.g], a.color[me] == -7 ? MPI_UNDEFINED : a.color[me], a.key[me], &G[id]) == 0, "split-rc", "ARMCIX_Group_split failed"); have[id] = 1; check_group(me, p.nodes[id], &G[id], id); break; }
    case GA_DUP: { if (s < 0) break; int id = a.ids[0]; cnt(CN_GROUP); CHECK(ARMCIX_Group_dup(&G[a.g], &G[id]) == 0, "dup-rc", "ARMCIX_Group_dup failed"); have[id] = 1; check_group(me, p.nodes[id], &G[id], id); break; }
    case GA_DEFAULT: if (s >= 0 && (a.who >> me & 1)) { ARMCI_Group_set_default(&G[a.g]); def = a.g; } break;
    case GA_FREE: if (have[a.g]) { ARMCI_Group_free(&G[a.g]); have[a.g] = 0; cnt(CN_GROUP); } break;
    case GA_USE: { if (s < 0) break; int lo = me, sum = me * me + 1, e1 = 0, e2 = 1 << 20; for (int w : m) { e1 += w * w + 1; e2 = std::min(e2, w); } armci_msg_group_igop(&sum, 1, (char *)"+", &G[a.g]); CHECK(sum == e1, "group-members", "sum over group %d is %d, expected %d", a.g, sum, e1); armci_msg_group_igop(&lo, 1, (char *)"min", &G[a.g]); CHECK(lo == e2, "group-members", "minimum over group %d is %d, expected %d", a.g, lo, e2);
      // a ring of one-sided puts along group ranks through absolute ids
      int nx = (s + 1) % (int)m.size(), pv = (s + (int)m.size() - 1) % (int)m.size(); long v = k * 1000 + me, got = -1; int tgt = ARMCI_Absolute_id(&G[a.g], nx); CHECK(ARMCI_Put(&v, (char *)base[tgt] + 64 * me, 8, tgt) == 0, "rc", "put failed"); ARMCI_Fence(tgt); armci_msg_group_barrier(&G[a.g]); CHECK(ARMCI_Get((char *)base[me] + 64 * m[pv], &got, 8, me) == 0, "rc", "get failed"); CHECK(got == k * 1000 + m[pv], "ring", "group %d rank %d: ring neighbour wrote %ld, expected %d", a.g, s, got, k * 1000 + m[pv]); int root = m[k % m.size()], bv = me == root ? k * 7 + 3 : 0; armci_msg_group_bcast_scope(SCOPE_ALL, &bv, 4, root, &G[a.g]); CHECK(bv == k * 7 + 3, "group-bcast", "broadcast in group %d from %d gave %d", a.g, root, bv); cnt(CN_COLL, 3); armci_msg_group_barrier(&G[a.g]); break; }
    case GA_VERIFY: for (size_t g = 0; g < G.size(); g++) if (have[g]) check_group(me, p.nodes[g], &G[g], (int)g); break;
    case GA_BARRIER: ARMCI_Barrier(); break;
    }
    ARMCI_Group d; ARMCI_Group_get_default(&d); int dr = -5, ds = -5; ARMCI_Group_rank(&d, &dr); ARMCI_Group_size(&d, &ds); auto &dm = p.nodes[def].m; CHECK(dr == slot_of(dm, me) && ds == (int)dm.size(), "default-group", "default group has rank %d size %d, expected %d %zu (action %d)", dr, ds, slot_of(dm, me), dm.size(), a.kind);
  }
  for (size_t g = 0; g < G.size(); g++) if (have[g]) check_group(me, p.nodes[g], &G[g], (int)g);
  if (r.chance(50)) { ARMCI_Group_set_default(&G[0]); }
  check_identity(me, c.n);
  for (size_t g = 1; g < G.size(); g++) if (have[g]) ARMCI_Group_free(&G[g]);
  ARMCI_Barrier(); CHECK(ARMCI_Free(base[me]) == 0, "free-rc", "ARMCI_Free failed"); ut.finish(); armci_stop(c);
}
static ScnReg r_g0("GROUPS", [](Case &c) { grp_plan(c, 0); }, grp_run), r_g1("GRPHANG", [](Case &c) { grp_plan(c, 1); }, grp_run);
static void id_plan(Case &c) { cfg_sim(c, 1, 9, 16); cfg_env(c, 1); c.desc = fmt("identity queries, %d ranks", c.n); }
static void id_run(int me, Case &c) { armci_start(c); for (int i = 0; i < 3; i++) check_identity(me, c.n); double a = armci_timer(); for (int i = 0; i < 20; i++) { sim_yield(); double b = armci_timer(); CHECK(b >= a, "timer", "timer went from %.9f to %.9f", a, b); a = b; } armci_stop(c); }
static ScnReg r_id("IDENT", id_plan, id_run);
