// Serial and collective gather files are interchangeable.
#include "gather.hpp"

static std::string content(const kvtree* h) { TP m = from_real(h); return encode_file(m.get()); }

static void collective_to_serial(Src& s, Ctx& x) {
  World w = make_world(s, x, thorough ? 40 : 17, s.chance(1, 2));
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir);
  std::vector<TP> t = gen_rank_trees(s, x, w.n);
  unsigned long own_seg = spread(s, x, t);
  Seg seg(own_seg ? own_seg : s.chance(1, 6) ? 0 : 100 + s.draw(s.chance(1, 2) ? 300 : 3000));
  x.note("%s; %s", show_comm(w).c_str(), show_trees(t).c_str());
  earlier_set(s, x, prefix, w.n);
  std::vector<std::string> own(w.n);
  run_ranks([&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    H h(build(t[me].get())), d(K->kvtree_new());
    REQUIRE(K->kvtree_write_gather(prefix.c_str(), h, w.comm) == KVTREE_SUCCESS, "write_gather fails");
    REQUIRE(K->kvtree_read_scatter(prefix.c_str(), d, w.comm) == KVTREE_SUCCESS, "read_scatter fails");
    own[me] = content(d);
  });
  static const char* const variants[] = {"static", "flock", "mpi"};
  int v = (int)s.draw(2);
  UseLib u(v == 0 ? kv_static() : kv_load(variants[v]));
  TP want = s.chance(2, 3) ? TP(new T) : gen_tree(s, rank_cfg(4));
  H d(build(want.get()));
  REQUIRE(K->kvtree_read_scatter_single(prefix.c_str(), d) == KVTREE_SUCCESS, "the serial reader fails on a set written by %d processes", w.n);
  TP all = by_rank(t);
  bool plain = want->kids.empty();
  merge(want.get(), all.get());
  require_equal(d, want.get(), "what the serial reader returns");
  if (plain) for (int r = 0; r < w.n; r++) {
    kvtree* sub = K->kvtree_get(d, str_of_int(r).c_str());
    REQUIRE(sub && content(sub) == own[r], "the two readers disagree about rank %d", r);
  }
  size_t parts = check_layout(prefix, t).parts.size();
  x.label(parts == 1 ? "data files: 1" : "data files: 2+");
  std::filesystem::remove_all(dir);
  if (parts > 1) x.nontrivial();
}
static void serial_to_collective(Src& s, Ctx& x) {
  World w = make_world(s, x, thorough ? 40 : 17, s.chance(1, 2));
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir);
  std::vector<TP> t = gen_rank_trees(s, x, w.n);
  unsigned per = s.chance(1, 6) ? 0 : 1 + (unsigned)s.draw(s.chance(1, 2) ? 3 : w.n + 1);
  x.note("%s, %u entries per file; %s", show_comm(w).c_str(), per, show_trees(t).c_str());
  TP all = by_rank(t);
  earlier_set(s, x, prefix, w.n);
  {
    Env env("KVTREE_ENTRIES_PER_FILE", per ? str_of_int((int)per) : "");
    static const char* const variants[] = {"static", "flock", "mpi"};
    int v = (int)s.draw(2);
    UseLib u(v == 0 ? kv_static() : kv_load(variants[v]));
    Rng order(s.seed32());
    H h(build(all.get(), &order));
    REQUIRE(K->kvtree_write_to_gather(prefix.c_str(), h, w.n) == KVTREE_SUCCESS, "write_to_gather fails");
  }
  H single(K->kvtree_new());
  REQUIRE(K->kvtree_read_scatter_single(prefix.c_str(), single) == KVTREE_SUCCESS, "read_scatter_single fails");
  run_ranks([&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    H d(K->kvtree_new());
    int rc = K->kvtree_read_scatter(prefix.c_str(), d, w.comm);
    REQUIRE(rc == KVTREE_SUCCESS, "read_scatter fails on rank %d of a set written serially", me);
    std::string df = diff(d, t[me].get());
    REQUIRE(df.empty(), "rank %d of %d gets a different tree: %s", me, w.n, df.c_str());
    kvtree* sub = K->kvtree_get(single, str_of_int(me).c_str());
    REQUIRE(sub && content(sub) == content(d), "the two readers disagree about rank %d", me);
  });
  size_t parts = check_layout(prefix, t).parts.size();
  x.label(parts == 1 ? "data files: 1" : "data files: 2+");
  std::filesystem::remove_all(dir);
  if (parts > 1) x.nontrivial();
}

Prop pbt::prop = {
  "G04", "exploration",
  "case = up to 17 ranks (40 thorough) with trees of any shape: written collectively in segments from 100 bytes on and read by the serial and the collective reader, or written serially with any number "
  "of entries per file and read by the collective and the serial reader; oracle: the trees themselves, and that both readers agree; non-trivial: more than one data file",
  {{"collective_to_serial", collective_to_serial, 6000, 50000}, {"serial_to_collective", serial_to_collective, 6000, 50000}},
  {"the segment size override (hook) stands in for large data"},
};
