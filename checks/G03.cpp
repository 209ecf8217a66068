// Gather file sets have the documented layout on disk.
#include "gather.hpp"

static void label_layout(Ctx& x, const Layout& l) {
  x.label(fmt("index levels: %d", l.levels).c_str());
  x.label(l.parts.size() == 1 ? "data files: 1" : l.parts.size() <= 4 ? "data files: 2-4" : "data files: 5+");
}
// no data file and no index file belongs to the set without being reached
static void no_strays(const std::string& dir, const Layout& l) {
  std::vector<std::string> want = l.files, got = list_dir(dir);
  std::sort(want.begin(), want.end());
  for (auto& f : got) REQUIRE(std::binary_search(want.begin(), want.end(), f), "file %s is written, but not reached from the root", quote(f.substr(dir.size() + 1)).c_str());
}
static void serial(Src& s, Ctx& x) {
  int n = (int)s.size(40);
  std::vector<TP> t = gen_rank_trees(s, x, n);
  unsigned per = s.chance(1, 5) ? 0 : 1 + (unsigned)s.draw(s.chance(1, 2) ? 3 : n + 2);
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir);
  bool before = earlier_set(s, x, prefix, n);
  Env env("KVTREE_ENTRIES_PER_FILE", per ? str_of_int((int)per) : "");
  TP all = by_rank(t);
  Rng order(s.seed32());
  H h(build(all.get(), &order));
  x.note("%d ranks, %u per file; %s", n, per, show_trees(t).c_str());
  REQUIRE(K->kvtree_write_to_gather(prefix.c_str(), h, n) == KVTREE_SUCCESS, "write_to_gather fails");
  Layout l = check_layout(prefix, t);
  if (!before) no_strays(prefix.substr(0, prefix.rfind('/')), l);
  size_t limit = per ? per : 8192;
  for (auto& p : l.parts) REQUIRE(p.second.size() <= limit, "file %s holds %zu entries, the limit is %zu", p.first.c_str(), p.second.size(), limit);
  label_layout(x, l);
  std::filesystem::remove_all(dir);
  if (l.parts.size() > 1) x.nontrivial();
}
static void gathered(Src& s, Ctx& x, int maxn, bool realseg) {
  World w = make_world(s, x, maxn, s.chance(1, 2));
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir);
  std::vector<TP> t;
  unsigned long seg = 1 << 20;
  if (realseg) {
    for (int i = 0; i < w.n; i++) {
      t.push_back(gen_tree(s, rank_cfg(3)));
      size_t len = s.chance(1, 5) ? 0 : 50000 + s.draw(1200000);
      if (len) t.back()->put(std::string(len, 'v'), new T);
    }
  } else {
    t = gen_rank_trees(s, x, w.n);
    seg = spread(s, x, t);
    if (!seg) seg = 100 + s.draw(s.chance(1, 2) ? 200 : 3000);
  }
  bool before = earlier_set(s, x, prefix, w.n);
  Seg sg(realseg ? 0 : seg);
  std::string z;
  for (auto& q : t) z += fmt(" %zu", packed_size(q.get()));
  x.note("%s, segments of %lu, packed sizes%s", show_comm(w).c_str(), seg, z.c_str());
  run_ranks([&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    H h(build(t[me].get()));
    int rc = K->kvtree_write_gather(prefix.c_str(), h, w.comm);
    REQUIRE(rc == KVTREE_SUCCESS, "write_gather fails on rank %d", me);
  });
  Layout l = check_layout(prefix, t);
  if (!before) no_strays(prefix.substr(0, prefix.rfind('/')), l);
  size_t biggest = 0;
  for (auto& q : t) biggest = std::max(biggest, packed_size(q.get()));
  for (auto& p : l.parts) {
    size_t sum = 0;
    for (int r : p.second) sum += packed_size(t[r].get());
    REQUIRE(sum <= seg + biggest, "file %s holds %zu bytes of trees in segments of %lu, the largest tree has %zu", p.first.c_str(), sum, seg, biggest);
  }
  // a file is started only where the data goes on into another segment
  size_t total = 0;
  for (auto& q : t) total += packed_size(q.get());
  REQUIRE(l.parts.size() <= 1 + total / seg, "%zu data files for %zu bytes in segments of %lu", l.parts.size(), total, seg);
  // index entries: what one of them takes is known from the layout
  size_t entry = 4 + 5 + 4 + (fmt(".%d.%d", l.levels, w.n).size() + 1) + 4 + 7 + 4 + 2 + 4;
  REQUIRE(l.index_entries_max <= 1 || (l.index_entries_max - 1) * (entry - 8) <= seg + entry, "an index file holds %zu entries in segments of %lu", l.index_entries_max, seg);
  label_layout(x, l);
  std::filesystem::remove_all(dir);
  if (l.parts.size() > 1) x.nontrivial();
}
static void collective(Src& s, Ctx& x) { gathered(s, x, thorough ? 70 : 33, false); }
static void segments(Src& s, Ctx& x) { gathered(s, x, 6, true); }

Prop pbt::prop = {
  "G03", "exploration",
  "case = one file set of up to 40 ranks written serially with any number of entries per file, or collectively on up to 33 ranks (70 thorough) in segments from 100 bytes on, or on up to 6 ranks in "
  "real segments of 1 MiB; an independent reader of the documented format follows the index from the root: names, LEVEL, RANKS, FILE and OFFSET of every file, every rank in exactly one data file with "
  "exactly its tree, no file left out, no file much larger than a segment; non-trivial: more than one data file",
  {{"serial", serial, 48000, 480000}, {"collective", collective, 6000, 40000}, {"segments", segments, 200, 1600}},
  {"the segment size override (hook) stands in for large data in the sub collective"},
};
