// Gather file sets: inputs, the documented layout, damage.
#pragma once
#include <filesystem>
#include <set>
#include "fault.hpp"
#include "mpih.hpp"

inline TreeCfg rank_cfg(unsigned n) {
  TreeCfg c;
  c.maxnodes = n;
  c.big = 200000; c.bigrate = 400; c.longrate = 60;
  c.key.maxlen = 300;
  return c;
}
// trees of the ranks: mostly small, sometimes all empty, all the same, or one much larger
inline std::vector<TP> gen_rank_trees(Src& s, Ctx& x, int n, size_t big = 4000) {
  std::vector<TP> t;
  int kind = (int)s.weighted({6, 1, 1, 2});
  if (kind == 1) x.label("all trees empty");
  if (kind == 3) x.label("a large tree");
  int fat = kind == 3 ? (int)s.draw(n > 0 ? n - 1 : 0) : -1;
  Rng r(s.seed32());
  for (int i = 0; i < n; i++) {
    if (kind == 1) { t.push_back(TP(new T)); continue; }
    if (kind == 2) {  // what an application stores: a few scalars
      TP q(new T);
      q->sub("FILE")->sub(fmt("ckpt.1/rank_%d.ckpt", i));
      q->sub("SIZE")->sub(str_of_int((int)r.below(1000000)));
      t.push_back(std::move(q));
      continue;
    }
    if (n > 24 && i % 3) { TP q(new T); for (uint64_t k = r.below(4); k > 0; k--) q->sub(fmt("k%d", (int)r.below(6)))->sub(fmt("%d", (int)r.below(1000))); t.push_back(std::move(q)); }
    else t.push_back(gen_tree(s, rank_cfg(8)));
    if (i == fat) t.back()->put(std::string(1 + s.draw(big - 1), 'L'), new T);
  }
  // the words the library uses itself must not get in the way
  if (n > 0 && s.chance(1, 4)) {
    T* q = t[s.draw(n - 1)].get();
    static const std::vector<std::string> words = {"RANK", "RANKS", "LEVEL", "FILE", "OFFSET", "D", "S", "0", "1"};
    for (size_t k = 1 + s.draw(3); k > 0; k--) { const std::string& w = s.pick(words); q->sub(w)->sub(s.chance(1, 2) ? "7" : s.pick(words)); }
    x.label("keys the library uses itself");
  }
  return t;
}
inline std::string show_trees(const std::vector<TP>& t) {
  std::string o;
  for (size_t i = 0; i < t.size() && o.size() < 500; i++) o += fmt("%zu: %s  ", i, show(t[i].get(), 120).c_str());
  return o;
}
inline void fresh_dir(const std::string& dir) {
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
}
// directories below dir so that dir/…/name is a path of len characters (or a few more)
inline std::string deep_dir(std::string dir, size_t len, size_t name) {
  while (dir.size() + 1 + name < len) {
    size_t left = len - dir.size() - 1 - name, n = left > 202 ? 200 : left > 1 ? left - 1 : 1;
    dir += "/" + std::string(n, 'd');
    mkdir(dir.c_str(), 0755);
  }
  return dir;
}
// the length of a path: now and then a long one, often around a power of two
inline size_t gen_path_len(Src& s) {
  static const std::vector<size_t> around = {256, 512, 1024, 1024, 1024, 2048};
  return s.chance(2, 3) ? s.pick(around) - 12 + s.draw(14) : 300 + s.draw(3500);
}
inline std::string gen_prefix(Src& s, Ctx& x, const std::string& dir, const std::string& name = "p") {
  if (!s.chance(1, 12)) return dir + "/" + name;
  x.label("long path");
  return deep_dir(dir, gen_path_len(s), name.size()) + "/" + name;
}
struct Env {  // sets a variable for the duration of a case
  const char* name;
  Env(const char* n, const std::string& v) : name(n) { if (v.empty()) unsetenv(n); else setenv(n, v.c_str(), 1); }
  ~Env() { unsetenv(name); }
};
struct Seg { explicit Seg(unsigned long n) { set_segsize(n); } ~Seg() { set_segsize(0); } };

// ---- the documented layout, read by the independent codec
inline std::string scalar(const T* t, const char* key, const std::string& file) {
  auto i = t->kids.find(key);
  REQUIRE(i != t->kids.end(), "%s has no %s", file.c_str(), key);
  REQUIRE(i->second && i->second->kids.size() == 1, "%s: %s does not have exactly one value", file.c_str(), key);
  auto v = i->second->kids.begin();
  REQUIRE(!v->second || v->second->kids.empty(), "%s: something lies below the value of %s", file.c_str(), key);
  return v->first;
}
inline bool decimal(const std::string& k, int* v) {
  char* e;
  long n = strtol(k.c_str(), &e, 10);
  *v = (int)n;
  return !k.empty() && !*e && n >= 0 && n < (1 << 30) && str_of_int((int)n) == k;
}
struct Layout {
  int levels = 0;                                   // LEVEL of the root
  std::vector<std::string> files;                   // all files of the set
  std::vector<std::pair<std::string, std::vector<int>>> parts;  // level-0 files and their ranks
  size_t index_entries_max = 0;
};
inline void walk_set(const std::string& prefix, const std::string& suffix, int level, int n, const std::vector<TP>& want, Layout& l, std::set<std::string>& seen, std::set<int>& ranks) {
  std::string name = prefix + suffix, shown = "file '" + prefix.substr(prefix.rfind('/') + 1) + suffix + "'";
  REQUIRE(seen.insert(suffix).second, "%s is reached twice", shown.c_str());
  bool ok = false;
  std::string bytes = slurp(name, &ok);
  REQUIRE(ok, "%s is missing", shown.c_str());
  T t;
  size_t used = 0;
  REQUIRE(decode_file(bytes, &t, &used) == 0 && used == bytes.size(), "%s is not a valid file of its own size (%zu bytes)", shown.c_str(), bytes.size());
  l.files.push_back(name);
  int lv = 0;
  REQUIRE(decimal(scalar(&t, "LEVEL", shown), &lv), "%s: LEVEL is %s", shown.c_str(), quote(scalar(&t, "LEVEL", shown)).c_str());
  if (level < 0) { REQUIRE(lv >= 1, "the root file has LEVEL %d", lv); l.levels = lv; }
  else REQUIRE(lv == level, "%s has LEVEL %d, but is part of level %d", shown.c_str(), lv, level);
  REQUIRE(scalar(&t, "RANKS", shown) == str_of_int(n), "%s: RANKS is %s, expected %d", shown.c_str(), scalar(&t, "RANKS", shown).c_str(), n);
  for (auto& k : t.kids) REQUIRE(k.first == "LEVEL" || k.first == "RANKS" || k.first == "RANK", "%s has an unknown entry %s", shown.c_str(), quote(k.first).c_str());
  T* rk = t.at("RANK");
  if (lv == 0) {
    l.parts.push_back({suffix, {}});
    if (!rk) return;
    for (auto& k : rk->kids) {
      int r;
      REQUIRE(decimal(k.first, &r) && r < n, "%s holds a rank %s of %d", shown.c_str(), quote(k.first).c_str(), n);
      REQUIRE(ranks.insert(r).second, "rank %d appears in two places, one of them %s", r, shown.c_str());
      REQUIRE(equal(k.second, want[r].get()), "%s has %s for rank %d, which wrote %s", shown.c_str(), k.second ? show(k.second).c_str() : "nothing", r, show(want[r].get()).c_str());
      l.parts.back().second.push_back(r);
    }
    auto& in = l.parts.back().second;
    size_t dot = suffix.rfind('.');
    REQUIRE(std::count(in.begin(), in.end(), atoi(suffix.c_str() + dot + 1)), "%s does not hold the rank it is named after", shown.c_str());
    return;
  }
  if (!rk) return;
  l.index_entries_max = std::max(l.index_entries_max, rk->kids.size());
  for (auto& k : rk->kids) {
    int r, w;
    REQUIRE(decimal(k.first, &r) && r < n, "%s names a reader %s of %d", shown.c_str(), quote(k.first).c_str(), n);
    REQUIRE(k.second && k.second->kids.size() == 2, "%s: entry %d has something else than FILE and OFFSET", shown.c_str(), r);
    REQUIRE(scalar(k.second, "OFFSET", shown) == "0", "%s: entry %d has OFFSET %s", shown.c_str(), r, scalar(k.second, "OFFSET", shown).c_str());
    std::string f = scalar(k.second, "FILE", shown), head = fmt(".%d.", lv - 1);
    REQUIRE(f.compare(0, head.size(), head) == 0 && decimal(f.substr(head.size()), &w) && w < n, "%s: entry %d names the file %s, expected %s<rank>", shown.c_str(), r, quote(f).c_str(), head.c_str());
    REQUIRE(w == r, "%s: the file %s, written by rank %d, is listed under rank %d", shown.c_str(), quote(f).c_str(), w, r);
    walk_set(prefix, f, lv - 1, n, want, l, seen, ranks);
  }
}
// the set at prefix follows the documentation and holds exactly these trees
inline Layout check_layout(const std::string& prefix, const std::vector<TP>& want) {
  Layout l;
  std::set<std::string> seen;
  std::set<int> ranks;
  walk_set(prefix, "", -1, (int)want.size(), want, l, seen, ranks);
  for (size_t r = 0; r < want.size(); r++) REQUIRE(ranks.count((int)r), "rank %zu is in none of the %zu parts", r, l.parts.size());
  return l;
}
inline std::vector<std::string> list_dir(const std::string& dir) {
  std::vector<std::string> f;
  for (auto& e : std::filesystem::directory_iterator(dir)) f.push_back(e.path().string());
  std::sort(f.begin(), f.end());
  return f;
}
// the tree that the serial calls use: one entry per rank
inline TP by_rank(const std::vector<TP>& t) {
  TP all(new T);
  for (size_t i = 0; i < t.size(); i++) all->put(str_of_int((int)i), clone(t[i].get()).release());
  return all;
}
struct RankInject : sys::Hook {
  std::vector<Inject> j;
  std::vector<char> on;
  explicit RankInject(int n) : j(n), on(n, 0) {}
  sys::Act before(const sys::Call& c) override { int r = mpi::me(); return r >= 0 && r < (int)j.size() && on[r] ? j[r].before(c) : sys::Act::pass(); }
};
// now and then another set was written to the same prefix before, with its own number of ranks and split;
// some of its files may stay
inline bool earlier_set(Src& s, Ctx& x, const std::string& prefix, int n) {
  if (!s.chance(1, 5)) return false;
  int m = s.chance(1, 3) ? n : 1 + (int)s.draw(s.chance(1, 2) ? 3 : n + 8);
  int per = 1 + (int)s.draw(s.chance(1, 2) ? 2 : m);
  std::vector<TP> o;
  size_t fat = s.chance(1, 3) ? 1 + s.draw(2000) : 0;  // files that are longer than the new ones
  for (int i = 0; i < m; i++) { o.push_back(TP(new T)); o.back()->sub("earlier set")->sub(str_of_int(i)); if (fat) o.back()->sub(std::string(fat, 'e')); }
  Env env("KVTREE_ENTRIES_PER_FILE", str_of_int(per));
  TP all = by_rank(o);
  UseLib u(kv_static());
  H h(build(all.get()));
  REQUIRE(K->kvtree_write_to_gather(prefix.c_str(), h, m) == KVTREE_SUCCESS, "write_to_gather of %d ranks fails", m);
  x.label("an earlier set at the same prefix");
  x.note("before: a set of %d ranks, %d per file", m, per);
  return true;
}
