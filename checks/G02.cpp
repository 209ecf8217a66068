// Collective gather then scatter gives each rank its own tree back.
#include "gather.hpp"

struct Round { std::vector<TP> t; unsigned long seg; };
// writes and reads in rounds on the same prefix; every rank checks what it gets
static void rounds(Src& s, Ctx& x, int maxn, size_t big, bool realseg) {
  World w = make_world(s, x, maxn, !realseg && s.chance(1, 4));  // a negative number: exactly so many
  int n = w.n;
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir, s.chance(1, 4) ? "p+.0" : "p");
  size_t nr = 1 + (s.chance(1, 3) ? 1 + s.draw(1) : 0);
  std::vector<Round> rs(nr);
  for (auto& r : rs) {
    if (realseg) {  // real segments of 1 MiB
      r.seg = 0;
      for (int i = 0; i < n; i++) {
        TP q = gen_tree(s, rank_cfg(3));
        size_t len = 0;
        switch (s.draw(4)) { case 0: break; case 1: len = s.draw(200000); break; case 2: len = 300000 + s.draw(400000); break; case 3: len = (1 << 20) - 8 - s.draw(60); break; default: len = (1 << 20) + s.draw(700000); }
        if (len) q->put(std::string(len, (char)('a' + i % 20)), new T);
        r.t.push_back(std::move(q));
      }
    } else {
      r.t = gen_rank_trees(s, x, n, big);
      r.seg = spread(s, x, r.t);
      if (!r.seg) r.seg = s.chance(1, 8) ? 0 : s.chance(1, 3) ? 100 + s.draw(60) : 100 + s.draw(2500);
    }
    if (realseg) { std::string z; for (auto& q : r.t) z += fmt(" %zu", packed_size(q.get())); x.note("packed sizes%s", z.c_str()); }
    else x.note("segments of %lu; %s", r.seg, show_trees(r.t).c_str());
  }
  if (nr > 1) x.label("same prefix written again");
  // destinations, some of them not empty
  std::vector<TP> dst;
  for (int i = 0; i < n; i++) dst.push_back(s.chance(2, 3) ? TP(new T) : gen_tree(s, rank_cfg(4)));
  bool again = s.chance(1, 4);
  x.note("%s", show_comm(w).c_str());
  earlier_set(s, x, prefix, n);
  // the segment size is an environment variable of the process: one collective at a time
  size_t parts = 0;
  int levels = 0;
  for (size_t k = 0; k < nr; k++) {
    Round& r = rs[k];
    Seg seg(r.seg);
    if (k) {
      std::vector<int> ranks = w.ranks;
      mpi::begin(s, w.wn);
      if (w.comm != MPI_COMM_WORLD || w.wn != w.n) w.comm = mpi::make_comm(ranks);
    }
    run_ranks([&](int wr) {
      int me = w.crank[wr];
      if (me < 0) return;
      H h(build(r.t[me].get())), d(build(dst[me].get()));
      int rc = K->kvtree_write_gather(prefix.c_str(), h, w.comm);
      REQUIRE(rc == KVTREE_SUCCESS, "write_gather fails on rank %d", me);
      require_equal(h, r.t[me].get(), "the tree that was written");
      TP want = clone(dst[me].get());
      for (int q = 0; q < (again ? 2 : 1); q++) {
        rc = K->kvtree_read_scatter(prefix.c_str(), d, w.comm);
        REQUIRE(rc == KVTREE_SUCCESS, "read_scatter fails on rank %d", me);
        merge(want.get(), r.t[me].get());
        std::string df = diff(d, want.get());
        REQUIRE(df.empty(), "rank %d of %d gets a different tree back: %s", me, n, df.c_str());
      }
    });
    label_mpi(x);
    // how far the set was spread (the documented layout itself is G03)
    T root;
    if (decode_file(slurp(prefix), &root) == 0 && root.at("LEVEL") && !root.at("LEVEL")->kids.empty()) levels = std::max(levels, atoi(root.at("LEVEL")->kids.begin()->first.c_str()));
    for (int i = 0; i < n; i++) parts += exists(prefix + ".0." + std::to_string(i));
  }
  x.label(fmt("index levels: %d", levels).c_str());
  std::filesystem::remove_all(dir);
  if (parts > 1) x.nontrivial();
}
static void small(Src& s, Ctx& x) { rounds(s, x, 10, 3000, false); }
static void wide(Src& s, Ctx& x) { rounds(s, x, thorough ? 70 : 33, 1000, false); }
// many ranks, so that the index has five levels and more
static void deep(Src& s, Ctx& x) { rounds(s, x, -(int)s.range(45, 130), 200, false); }
static void segments(Src& s, Ctx& x) { rounds(s, x, 5, 0, true); }

Prop pbt::prop = {
  "G02", "exploration",
  "case = up to three rounds of a collective gather and one or two scatters of the same prefix, on up to 10 (small), 33 (wide, 70 thorough), 130 (deep: five and more index levels) or 5 ranks (segments: trees around and above the real "
  "segment size of 1 MiB), over the world or a permuted part of it, with trees of any shape, segment sizes from 100 bytes on, destinations that are empty or not, message timings drawn by the "
  "in-process MPI; oracle: every rank gets success and the merge of its destination and its own tree; non-trivial: more than one data file was written",
  {{"small", small, 4000, 80000}, {"wide", wide, 350, 5000}, {"segments", segments, 60, 1000}, {"deep", deep, 40, 1000}},
  {"the segment size override (hook) stands in for large data in the subs small and wide", "the in-process MPI follows the MPI standard"},
};
