// Sent and broadcast trees arrive equal, replacing the receiver's tree.
#include "mpih.hpp"

struct Step {
  enum Kind { SEND, SENDRECV, BCAST } kind;
  int src = 0, dst = 0, root = 0;
  std::vector<int> to, from;      // sendrecv: partners per rank, or MPI_PROC_NULL
  std::vector<int> tree;          // index of the source tree per rank, -1 = NULL
  std::vector<int> prior;         // index of the tree the receiver holds before, -1 = a small one
};
static TP small_tree(Src& s) {
  TreeCfg c;
  c.maxnodes = 25; c.maxwide = 400; c.maxdeep = 300;
  c.big = 1000000; c.bigwide = 10000;
  return gen_tree(s, c);
}
static void seq(Src& s, Ctx& x, int maxn, size_t maxsteps) {
  World w = make_world(s, x, maxn);
  x.note("%s", show_comm(w).c_str());
  std::vector<TP> pool;
  size_t np = 1 + s.draw(4);
  for (size_t i = 0; i < np; i++) { pool.push_back(small_tree(s)); label_tree(x, pool.back().get()); x.note("tree %zu = %s", i, show(pool.back().get(), 150).c_str()); }
  auto pick_tree = [&]() { return (int)s.draw(np) - (s.chance(1, 2) ? 1 : 0); };
  std::vector<Step> steps;
  size_t ns = 1 + s.draw(maxsteps - 1);
  int moved = 0;
  for (size_t i = 0; i < ns; i++) {
    Step st;
    st.kind = (Step::Kind)s.draw(2);
    st.tree.assign(w.n, 0);
    for (auto& t : st.tree) { t = pick_tree(); if (t >= (int)np) t = 0; }
    st.prior.assign(w.n, -1);
    if (s.chance(1, 2)) for (auto& t : st.prior) t = (int)s.draw(np) - 1;
    if (st.kind == Step::SEND) {
      if (w.n == 1) st.kind = Step::BCAST;
      else {
        st.src = (int)s.draw(w.n - 1);
        st.dst = (st.src + 1 + (int)s.draw(w.n - 2)) % w.n;
        x.note("send tree %d from %d to %d", st.tree[st.src], st.src, st.dst);
        moved++;
      }
    }
    if (st.kind == Step::BCAST) { st.root = (int)s.draw(w.n - 1); x.note("bcast tree %d from %d", st.tree[st.root], st.root); if (w.n > 1) moved++; }
    if (st.kind == Step::SENDRECV) {
      // a partial permutation
      st.to.assign(w.n, MPI_PROC_NULL);
      st.from.assign(w.n, MPI_PROC_NULL);
      std::string d;
      if (s.chance(1, 2)) {
        int shift = (int)s.draw(w.n - 1);
        for (int r = 0; r < w.n; r++) { st.to[r] = (r + shift) % w.n; st.from[(r + shift) % w.n] = r; }
        d = fmt("shift by %d", shift);
        moved++;
      } else {
        Rng r(s.seed32());
        std::vector<int> p(w.n);
        for (int i2 = 0; i2 < w.n; i2++) p[i2] = i2;
        for (int i2 = w.n; i2 > 1; i2--) std::swap(p[i2 - 1], p[r.below(i2)]);
        for (int i2 = 0; i2 < w.n; i2++) if (r.below(4)) { st.to[i2] = p[i2]; st.from[p[i2]] = i2; d += fmt(" %d->%d", i2, p[i2]); moved++; }
      }
      x.note("sendrecv %s", d.c_str());
    }
    steps.push_back(st);
  }
  run_ranks([&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    auto mk = [&](int t) { return t < 0 ? (kvtree*)nullptr : build(pool[t].get()); };
    auto dirty = [&](int t) { if (t >= 0) return build(pool[t].get()); kvtree* h = K->kvtree_new(); K->kvtree_set_kv_int(h, "old", me); K->kvtree_set(h, "a", K->kvtree_new()); return h; };
    auto want = [&](int t) { return t < 0 ? nullptr : pool[t].get(); };
    for (size_t i = 0; i < steps.size(); i++) {
      Step& st = steps[i];
      std::string at = fmt("step %zu, rank %d", i, me);
      if (st.kind == Step::SEND) {
        if (me == st.src) {
          H h(mk(st.tree[me]));
          std::string sb = snapshot(h);
          REQUIRE(K->kvtree_send(h, st.dst, w.comm) == KVTREE_SUCCESS, "%s: send fails", at.c_str());
          REQUIRE(snapshot(h) == sb, "%s: send changed the tree", at.c_str());
        } else if (me == st.dst) {
          H h(dirty(st.prior[me]));
          REQUIRE(K->kvtree_recv(h, st.src, w.comm) == KVTREE_SUCCESS, "%s: recv fails", at.c_str());
          require_equal(h, want(st.tree[st.src]), "received tree");
        }
      } else if (st.kind == Step::BCAST) {
        bool root = me == st.root;
        H h(root ? mk(st.tree[me]) : dirty(st.prior[me]));
        std::string sb = snapshot(h);
        REQUIRE(K->kvtree_bcast(h, st.root, w.comm) == KVTREE_SUCCESS, "%s: bcast fails", at.c_str());
        if (root) REQUIRE(snapshot(h) == sb, "%s: bcast changed the root's tree", at.c_str());
        else require_equal(h, want(st.tree[st.root]), "broadcast tree");
      } else {
        H a(mk(st.tree[me])), b(dirty(st.prior[me]));
        std::string sa = snapshot(a), sb = snapshot(b);
        REQUIRE(K->kvtree_sendrecv(a, st.to[me], b, st.from[me], w.comm) == KVTREE_SUCCESS, "%s: sendrecv fails", at.c_str());
        REQUIRE(snapshot(a) == sa, "%s: sendrecv changed the tree sent", at.c_str());
        if (st.from[me] == MPI_PROC_NULL) REQUIRE(snapshot(b) == sb, "%s: sendrecv without a source changed the receiving tree", at.c_str());
        else require_equal(b, want(st.tree[st.from[me]]), "exchanged tree");
      }
    }
  });
  label_mpi(x);
  if (moved >= 2) x.nontrivial();
}
static void small(Src& s, Ctx& x) { seq(s, x, 9, 8); }
static void many(Src& s, Ctx& x) { seq(s, x, 33, 4); }
static void big(Src& s, Ctx& x) {
  World w = make_world(s, x, 4);
  TreeCfg c;
  c.maxnodes = 300; c.maxwide = 3000; c.maxdeep = 3000;
  c.big = 20000000; c.bigwide = 10000; c.bigrate = 5;
  TP t = gen_tree(s, c);
  int root = (int)s.draw(w.n - 1);
  x.note("%s, bcast and ring of a tree with %zu nodes, depth %zu", show_comm(w).c_str(), nodes(t.get()), depth(t.get()));
  label_tree(x, t.get());
  run_ranks([&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    H h(me == root ? build(t.get()) : K->kvtree_new());
    REQUIRE(K->kvtree_bcast(h, root, w.comm) == KVTREE_SUCCESS, "bcast fails");
    require_equal(h, t.get(), "broadcast tree");
    H g(K->kvtree_new());
    REQUIRE(K->kvtree_sendrecv(h, (me + 1) % w.n, g, (me + w.n - 1) % w.n, w.comm) == KVTREE_SUCCESS, "sendrecv fails");
    require_equal(g, t.get(), "exchanged tree");
  });
  x.nontrivial();
}

Prop pbt::prop = {
  "M01", "exploration",
  "case = sequence of sends, pairwise exchanges and broadcasts among 1-33 ranks of a (sub-)communicator under a generated message schedule; every received tree "
  "is compared with the sent one; non-trivial: at least 2 transfers between ranks, or a big tree; distinct by choice sequence",
  {{"small", small, 10000, 200000}, {"many", many, 1000, 20000}, {"big", big, 300, 6000}},
  {"MPI as modelled by the in-process shim (/verif/mpi): per-pair ordering, arbitrary delivery times, eager or rendezvous sends", "packed trees below 2 GiB"},
};
