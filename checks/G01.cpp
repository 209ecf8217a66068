// Serial gather files return every rank's tree, however they are split.
#include "gather.hpp"
#include <climits>

// a file name for a set; anything a directory entry can be
static std::string gen_name(Src& s, Ctx& x) {
  static const std::vector<std::string> plain = {"p", "PREFIX", "rank2file", "ckpt.1", "a_b-c", "x.0", "x.0.0", "0", "p.0.3", ".hidden"};
  static const std::vector<std::string> special = {"a+b", "a*", "[x]", "(p", "p)", "a|b", "^p", "p$", "a?", "{2}", "x{3", "\\", "a\\d", "a b", " p", "p ", "100%", "%s%n", "%d", "p.", "..p", "-p", "~", "#", "a\nb", "\xc3\xa9", "\xff\xfe", "a'b\"", "$HOME", "a..b", "*", ".*", "[^", "a[0-9]", "p+.0"};
  switch (s.weighted({4, 5, 2, 1})) {
    case 0: return s.pick(plain);
    case 1: x.label("special characters in the prefix"); return s.pick(special);
    case 2: {
      x.label("special characters in the prefix");
      std::string o;
      static const std::string abc = "ab.*+?[](){}|^$\\%0 1-_#~\x80\xff";
      for (size_t n = 1 + s.draw(11); n > 0; n--) o += abc[s.draw(abc.size() - 1)];
      return o == "." || o == ".." ? "p" : o;
    }
    default: x.label("long prefix"); return std::string(1 + s.draw(235), s.chance(1, 2) ? 'n' : '.') + "n";
  }
}
// names close to the ones of the set, which do not belong to it
static std::string neighbour(Src& s, const std::string& p) {
  std::string m = p;
  switch (s.draw(17)) {
    case 0: return "x" + p + ".0.0";
    case 1: return p + "x.0.0";
    case 2: return p + ".0.a";
    case 3: return p + ".0.";
    case 4: return p + ".0";
    case 5: return p + ".1.0";
    case 6: return p + ".0.0.bak";
    case 7: return p + ".00.0";
    case 8: return p + ".0.0x";
    case 9: return p + ".0.-1";
    case 10: return p + ".0.0.0";
    case 11: return p + "_0.0";
    case 12: return p + ".0_0";
    case 13: for (auto& c : m) if (strchr(".*+?[](){}|^$\\", c)) c = 'x'; return m + ".0.0";
    case 14: m.erase(m.size() - 1); return m + ".0.0";
    case 15: for (auto& c : m) c = (char)(isupper((unsigned char)c) ? tolower((unsigned char)c) : toupper((unsigned char)c)); return m + ".0.0";
    case 16: return p + ".0.0 ";
    default: return p + ".10.0";
  }
}
static std::vector<TP> some_trees(Src& s, int n) {
  std::vector<TP> o;
  for (int i = 0; i < n; i++) { o.push_back(gen_tree(s, rank_cfg(3))); o.back()->sub("other set")->sub("x"); }
  return o;
}
static void write_set(const std::string& prefix, const std::vector<TP>& t, Rng& order) {
  TP all = by_rank(t);
  H h(build(all.get(), &order));
  int rc = K->kvtree_write_to_gather(prefix.c_str(), h, (int)t.size());
  REQUIRE(rc == KVTREE_SUCCESS, "write_to_gather(%s) of %zu ranks fails", quote(prefix).c_str(), t.size());
  require_equal(h, all.get(), "the tree that was written");
}
static void sets(Src& s, Ctx& x) {
  static const char* const variants[] = {"static", "flock", "noswap"};
  int v = (int)s.draw(2);
  UseLib u(v == 0 ? kv_static() : kv_load(variants[v]));
  int n = (int)s.size(40);
  std::vector<TP> t = gen_rank_trees(s, x, n);
  long per = s.chance(1, 4) ? 0 : 1 + (long)s.draw(s.chance(1, 2) ? 3 : n + 2);
  static const std::vector<long> huge = {255, 256, 4096, 8191, 8193, 65536, 100000, 2147483647L, 2147483648L, 4294967296L, 4294967297L, 1000000000000L, LONG_MAX};
  if (s.chance(1, 12)) { per = s.pick(huge); x.label("entries per file beyond any rank"); }
  std::string dir = scratch() + "/d", name = gen_name(s, x);
  fresh_dir(dir);
  std::string sub = dir;
  // how the path is spelled
  int form = (int)s.weighted({4, 4, 4, 4, 4, 4, 2});
  std::string prefix = dir + "/" + name;
  bool cd = false;
  switch (form) {
    case 1: prefix = name; cd = true; break;
    case 2: prefix = "./" + name; cd = true; break;
    case 3: mkdir((dir + "/s[1].0.0").c_str(), 0755); prefix = "s[1].0.0/" + name; sub = dir + "/s[1].0.0"; cd = true; break;
    case 4: prefix = dir + "//" + name; break;
    case 5: prefix = dir + "/../d/" + name; break;
    case 6: x.label("long path"); sub = deep_dir(dir, gen_path_len(s), name.size()); prefix = sub + "/" + name; break;
  }
  x.label(cd ? "relative path" : "absolute path");
  x.note("%d ranks, %ld per file, prefix %s", n, per, quote(prefix.size() > 300 ? fmt("(%zu characters)/", prefix.size()) + name : prefix).c_str());
  x.note("%s", show_trees(t).c_str());
  Env env("KVTREE_ENTRIES_PER_FILE", per ? std::to_string(per) : "");
  struct Cd { Cd(const char* p) { if (p && chdir(p)) FAILK("harness", "chdir"); } ~Cd() { if (chdir("/")) {} } } c(cd ? dir.c_str() : nullptr);
  Rng order(s.seed32());
  // other files, before and after
  std::set<std::string> mine = {name};
  for (long i = 0; i < n; i += per && per < n ? per : n) mine.insert(fmt("%s.0.%d", name.c_str(), i));
  auto others = [&](size_t k) {
    for (; k > 0; k--) {
      switch (s.draw(3)) {
        case 0: {  // another set with a similar prefix
          std::string q;
          switch (s.draw(6)) {
            case 0: q = name + ".0"; break;
            case 1: q = name + "2"; break;
            case 2: q = name + ".0." + str_of_int(1000 + (int)s.draw(9)); break;   // its root looks like a part
            case 3: q = "x" + name; break;
            case 4: q = name + ".1.0"; break;
            case 5: q = name + ".0.0"; break;
            default: q = name.substr(0, name.size() - 1); break;
          }
          if (q.empty() || q == "." || q == ".." || q.size() > 240) break;
          std::vector<TP> o = some_trees(s, 1 + (int)s.draw(3));
          bool clash = mine.count(q) != 0 || exists(sub + "/" + q);
          for (size_t r = 0; r < o.size(); r++) clash = clash || exists(sub + "/" + q + ".0." + std::to_string(r)) || mine.count(q + ".0." + std::to_string(r)) || (q + ".0." + std::to_string(r)).compare(0, name.size() + 3, name + ".0.") == 0;
          // parts of the other set must not be named like parts of this one
          if (clash) break;
          x.note("other set %s", quote(q).c_str());
          x.label("another set with a similar prefix");
          write_set(sub + "/" + q, o, order);
          break;
        }
        default: {
          std::string q = neighbour(s, name);
          if (mine.count(q) || q.empty() || q.size() > 255 || q == "." || q == ".." || exists(sub + "/" + q)) break;
          int w;
          if (q.compare(0, name.size() + 3, name + ".0.") == 0 && decimal(q.substr(name.size() + 3), &w)) break;
          x.note("other file %s", quote(q).c_str());
          x.label("files with a similar name");
          T o;
          o.sub("LEVEL")->sub("0"); o.sub("RANKS")->sub(str_of_int(n)); o.sub("RANK")->sub("0")->sub("stray"); o.sub("RANK")->sub("77")->sub("stray");
          if (s.chance(1, 5)) mkdir((sub + "/" + q).c_str(), 0755); else spew(sub + "/" + q, s.chance(1, 5) ? "junk" : encode_file(&o));
        }
      }
    }
  };
  others(s.draw(3));
  {
    const char* e = getenv("KVTREE_ENTRIES_PER_FILE");
    std::string keep = e ? e : "";
    earlier_set(s, x, prefix, n);
    if (!keep.empty()) setenv("KVTREE_ENTRIES_PER_FILE", keep.c_str(), 1);
  }
  write_set(prefix, t, order);
  others(s.draw(2));
  // read, merging into a tree that may have entries already
  TP want = s.chance(1, 2) ? TP(new T) : gen_tree(s, rank_cfg(6));
  if (!want->kids.empty() && n > 0) want->sub(str_of_int((int)s.draw(n - 1)))->sub("was here");
  H d(build(want.get()));
  TP all = by_rank(t);
  int reads = 1 + (int)s.draw(1);
  for (int i = 0; i < reads; i++) {
    int rc = K->kvtree_read_scatter_single(prefix.c_str(), d);
    REQUIRE(rc == KVTREE_SUCCESS, "read_scatter_single(%s) fails", quote(prefix).c_str());
    merge(want.get(), all.get());
    require_equal(d, want.get(), "the tree that was read");
  }
  std::filesystem::remove_all(dir);
  if (n > 1) x.nontrivial();
}
// more ranks than the default 8192 entries of one file
static void large(Src& s, Ctx& x) {
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  static const std::vector<int> around = {8191, 8192, 8193, 8200, 9000, 16385, 24577, 32768, 32769, 32800, 40000};
  int n = s.pick(around);
  Rng r(s.seed32());
  // the default, or a limit of the caller's that is out of the ordinary
  static const std::vector<long> limits = {4096, 5000, 10000, 16384, 32768, 65535, 65536, 2147483648L, 4294967297L};
  long per = s.chance(1, 2) ? 8192 : s.pick(limits);
  if (s.chance(1, 2) && per <= 40000) {  // a last file with hardly any rank, or exactly full
    n = (int)(per * (1 + (long)s.draw(40000 / per - 1))) - 1 + (int)s.draw(3);
  }
  std::vector<TP> t;
  for (int i = 0; i < n; i++) { t.push_back(TP(new T)); if (r.below(3)) t.back()->sub(fmt("v%d", (int)r.below(1000))); }
  Env env("KVTREE_ENTRIES_PER_FILE", per == 8192 ? "" : std::to_string(per));
  x.note("%d ranks, %ld per file", n, per);
  std::string prefix = dir + "/p";
  TP all = by_rank(t);
  {
    std::string body;  // unpacking is faster than setting so many keys
    encode_body(all.get(), body, &r);
    H h(K->kvtree_new());
    K->kvtree_unpack(body.data(), h);
    REQUIRE(K->kvtree_write_to_gather(prefix.c_str(), h, n) == KVTREE_SUCCESS, "writing %d ranks fails", n);
    require_equal(h, all.get(), "the tree that was written");
  }
  REQUIRE(exists(prefix + ".0.0") && exists(prefix + fmt(".0.%ld", per)) == (n > per), "%d ranks: files of %ld entries expected", n, per);
  check_layout(prefix, t);
  if (n <= (thorough ? 17000 : 9000)) {  // reading takes quadratic time
    H d(K->kvtree_new());
    REQUIRE(K->kvtree_read_scatter_single(prefix.c_str(), d) == KVTREE_SUCCESS, "reading %d ranks fails", n);
    require_equal(d, all.get(), "the tree that was read");
  }
  std::filesystem::remove_all(dir);
  x.nontrivial();
}

Prop pbt::prop = {
  "G01", "exploration",
  "case = (sets) up to 40 ranks with trees of any shape, inserted in random order, written with 1 to n+3 or far more entries per file under a prefix with any characters and any spelling of the path, "
  "next to files and sets with similar names, then read once or twice into an empty or filled tree: the result is the filled tree merged with every rank's tree; "
  "(large) 8191 to 40000 ranks with the default split or unusual limits, all files decoded independently and read back up to 9000 ranks (17000 thorough); non-trivial: more than one rank",
  {{"sets", sets, 12000, 240000}, {"large", large, 24, 200}},
  {"at least one entry per file", "path prefixes of at most 3800 characters"},
};
