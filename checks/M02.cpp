// The sparse exchange delivers every message to its destination only.
#include "mpih.hpp"

typedef std::map<int, TP> Msgs;            // destination -> message
static const char* vname[] = {"exchange", "exchange_direction left", "exchange_direction right"};

static std::vector<Msgs> gen_msgs(Src& s, Ctx& x, int n, size_t& total, bool& hop) {
  std::vector<Msgs> m(n);
  int pat = (int)s.weighted({6, 2, 2, 2, 1, 1, 1, 2, 4});
  size_t np = 1 + s.draw(3);
  std::vector<TP> pool;
  for (size_t i = 0; i < np; i++) { TreeCfg c; c.maxnodes = 10; c.key.maxlen = 3000; c.big = 100000; c.bigrate = 150; c.longrate = 30; pool.push_back(gen_tree(s, c)); }
  Rng r(s.seed32());
  auto add = [&](int a, int b) {
    TP t;
    unsigned k = (unsigned)r.below(6);
    if (k == 0) t.reset(new T);
    else {
      t = clone(pool[r.below(np)].get());
      t->put("from", new T); t->sub("from")->put(str_of_int(a), new T);
      t->put("to", new T); t->sub("to")->put(str_of_int(b), new T);
    }
    m[a][b] = std::move(t);
  };
  std::string d;
  switch (pat) {
    case 0: {  // a few drawn pairs
      size_t k = 1 + s.draw(std::min(3 * n, 24) - 1);
      for (size_t i = 0; i < k; i++) { int a = (int)s.draw(n - 1), b = (int)s.draw(n - 1); add(a, b); d += fmt(" %d->%d", a, b); }
      break;
    }
    case 1: { unsigned pct = 5 + (unsigned)s.draw(90); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (r.below(100) < pct) add(a, b); d = fmt(" random, %u%%", pct); break; }
    case 2: { int sh = (int)s.draw(n - 1); for (int a = 0; a < n; a++) add(a, (a + sh) % n); d = fmt(" ring, shift %d", sh); break; }
    case 3: { int b = (int)s.draw(n - 1); for (int a = 0; a < n; a++) add(a, b); d = fmt(" all to %d", b); break; }
    case 4: { int a = (int)s.draw(n - 1); for (int b = 0; b < n; b++) add(a, b); d = fmt(" %d to all", a); break; }
    case 5: for (int a = 0; a < n; a++) add(a, a); d = " each to itself"; break;
    case 6: d = " nothing"; break;
    case 7: for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) add(a, b); d = " dense"; break;
    default: {  // ranks that send much next to ranks that send little
      unsigned busy = 5 + (unsigned)s.draw(90);
      for (int a = 0; a < n; a++) {
        int k = r.below(100) < busy ? n : (int)r.below(4);
        if (k == n) { for (int b = 0; b < n; b++) if (r.below(8)) add(a, b); }
        else for (int i = 0; i < k; i++) add(a, (int)r.below(n));
      }
      d = fmt(" uneven, %u%% busy", busy);
    }
  }
  x.note("pattern:%s", d.c_str());
  total = 0;
  hop = false;
  for (int a = 0; a < n; a++) for (auto& p : m[a]) { total++; int dist = (p.first - a + n) % n; if (dist & (dist - 1)) hop = true; }
  return m;
}
static void one(Src& s, Ctx& x, int maxn) {
  World w = make_world(s, x, maxn);
  size_t rounds = 1 + s.draw(2);
  std::vector<std::vector<Msgs>> all;
  std::vector<int> variant;
  bool nt = false;
  x.note("%s", show_comm(w).c_str());
  for (size_t i = 0; i < rounds; i++) {
    size_t total;
    bool hop;
    all.push_back(gen_msgs(s, x, w.n, total, hop));
    variant.push_back((int)s.draw(2));
    x.note("  by %s", vname[variant.back()]);
    if (total >= 2 && w.n >= 2) nt = true;
    if (hop) x.label("message needs several hops");
    for (auto& m : all.back()) for (auto& p : m) if (p.second->kids.empty()) { x.label("empty message"); break; }
  }
  uint64_t seed = s.seed32();
  run_ranks([&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    for (size_t i = 0; i < rounds; i++) {
      Msgs& mine = all[i][me];
      Rng order(seed + i * 100 + me);
      T sm;
      for (auto& p : mine) { T* c = clone(p.second.get()).release(); if (c->kids.empty() && order.below(2)) { delete c; c = nullptr; } sm.kids[str_of_int(p.first)] = c; }
      H send(build(&sm, &order)), recv(K->kvtree_new());
      std::string before = snapshot(send);
      int rc = variant[i] == 0 ? K->kvtree_exchange(send, recv, w.comm)
                               : K->kvtree_exchange_direction(send, recv, w.comm, variant[i] == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
      REQUIRE(rc == KVTREE_SUCCESS, "%s returns %d on rank %d", vname[variant[i]], rc, me);
      REQUIRE(snapshot(send) == before, "the exchange changed the tree sent by rank %d", me);
      T want;
      for (int a = 0; a < w.n; a++) { auto it = all[i][a].find(me); if (it != all[i][a].end()) want.put(str_of_int(a), clone(it->second.get()).release()); }
      std::string d = diff(recv, &want);
      REQUIRE(d.empty(), "rank %d of %d after %s (round %zu): %s", me, w.n, vname[variant[i]], i, d.c_str());
    }
  });
  label_mpi(x);
  if (nt) x.nontrivial();
}
static void small(Src& s, Ctx& x) { one(s, x, 9); }
static void many(Src& s, Ctx& x) { one(s, x, 40); }
static void huge(Src& s, Ctx& x) { one(s, x, thorough ? 130 : 70); }

Prop pbt::prop = {
  "M02", "exploration",
  "case = 1-3 exchanges among 1-70 ranks of a (sub-)communicator with a generated message pattern and schedule; the received trees of every rank are compared "
  "with the set of messages addressed to it; non-trivial: some round has at least 2 messages among at least 2 ranks",
  {{"small", small, 7500, 100000}, {"many", many, 750, 10000}, {"huge", huge, 45, 400}},
  {"MPI as modelled by the in-process shim", "the receiving tree is empty before the call"},
};
