// Created files get the permissions the umask allows; existing files keep theirs.
#include <filesystem>
#include <map>
#include "fault.hpp"
#include "mpih.hpp"

struct Umask {
  mode_t old;
  explicit Umask(mode_t m) : old(umask(m)) {}
  ~Umask() { umask(old); }
  mode_t now() { mode_t m = umask(0); umask(m); return m; }
};
// root passes every permission check, so any umask can be used
static mode_t gen_umask(Src& s) {
  static const std::vector<mode_t> common = {022, 0, 027, 077, 002, 007, 0777, 0111, 0222, 0444, 0026};
  return s.chance(1, 2) ? s.pick(common) : (mode_t)s.draw(0777);
}
static TreeCfg cfg() {
  TreeCfg c;
  c.maxnodes = 8;
  c.key.maxlen = 200; c.longrate = 20;
  return c;
}
typedef std::map<std::string, mode_t> Modes;
static Modes modes(const std::string& dir) {
  Modes m;
  for (auto& e : std::filesystem::directory_iterator(dir)) {
    struct stat st;
    if (lstat(e.path().c_str(), &st) == 0) m[e.path().filename().string()] = st.st_mode & 07777;
  }
  return m;
}
static bool check_modes(const Modes& before, const std::string& dir, mode_t mask, const char* what, bool* created = nullptr) {
  bool any = false;
  for (auto& f : modes(dir)) {
    auto o = before.find(f.first);
    if (o != before.end()) { REQUIRE(f.second == o->second, "%s changed the mode of the existing file %s from %04o to %04o", what, f.first.c_str(), o->second, f.second); continue; }
    any = true;
    REQUIRE(f.second == (0666 & ~mask), "%s creates file %s with mode %04o under umask %04o", what, f.first.c_str(), f.second, mask);
  }
  if (created) *created = any;
  return any;
}
static void pre_create(Src& s, const std::string& p, const std::string& content) {
  spew(p, content);
  static const std::vector<mode_t> common = {0644, 0600, 0666, 0755, 0777, 0400, 0};
  chmod(p.c_str(), s.chance(1, 2) ? s.pick(common) : (mode_t)s.draw(0777));
}
static void single(Src& s, Ctx& x) {
  static const char* const variants[] = {"flock", "fcntl", "none", "static"};
  int v = (int)s.weighted({4, 4, 1, 2});
  UseLib u(v == 3 ? kv_static() : kv_load(variants[v]));
  std::string dir = scratch() + "/d", p = dir + "/f";
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  TP t = gen_tree(s, cfg());
  H h(build(t.get()));
  size_t steps = 1 + s.draw(4);
  mode_t mask = gen_umask(s);
  bool nontriv = false;
  for (size_t i = 0; i < steps; i++) {
    if (i && s.chance(1, 3)) mask = gen_umask(s);
    if (i && s.chance(1, 2)) unlink(p.c_str());
    if (s.chance(1, 3)) { pre_create(s, p, encode_file(t.get())); nontriv = true; }
    Inject j;
    if (s.chance(1, 4)) gen_fault(s, j, v != 2);
    int op = (int)s.draw(6);
    static const char* const name[] = {"write_file", "write_with_lock", "read_with_lock", "lock_open_read", "lock_open_read+write_close_unlock", "read_file", "write_file into a missing directory"};
    x.note("umask %04o, %s, %s, %s", mask, exists(p) ? "file exists" : "no file", name[op], describe(j).c_str());
    H d(K->kvtree_new());
    Modes before = modes(dir);
    int fd = -1;
    mode_t left;
    {
      Umask um(mask);
      sys::With with(&j);
      switch (op) {
        case 0: K->kvtree_write_file(p.c_str(), h); break;
        case 1: K->kvtree_write_with_lock(p.c_str(), h); break;
        case 2: K->kvtree_read_with_lock(p.c_str(), d); break;
        case 3: if (K->kvtree_lock_open_read(p.c_str(), &fd, d) == KVTREE_SUCCESS) close(fd); break;
        case 4: if (K->kvtree_lock_open_read(p.c_str(), &fd, d) == KVTREE_SUCCESS) K->kvtree_write_close_unlock(p.c_str(), &fd, h); break;
        case 5: K->kvtree_read_file(p.c_str(), d); break;
        default: K->kvtree_write_file((dir + "/no/f").c_str(), h); break;
      }
      left = um.now();
    }
    REQUIRE(left == mask, "%s changed the umask from %04o to %04o", name[op], mask, left);
    if (check_modes(before, dir, mask, name[op])) nontriv = true;
    if (j.op == sys::NOPS && (op <= 4 && op != 5)) REQUIRE(exists(p), "%s created no file", name[op]);
    x.label(name[op]);
  }
  std::filesystem::remove_all(dir);
  if (nontriv) x.nontrivial();
}
static void serial_set(Src& s, Ctx& x) {
  std::string dir = scratch() + "/d", p = dir + "/p";
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  T all;
  int n = (int)s.draw(6);
  for (int i = 0; i < n; i++) all.put(str_of_int(i), gen_tree(s, cfg()).release());
  setenv("KVTREE_ENTRIES_PER_FILE", std::to_string(1 + s.draw(3)).c_str(), 1);
  H h(build(&all)), d(K->kvtree_new());
  mode_t mask = gen_umask(s);
  for (int i = 0; i < 4; i++) {
    if (!s.chance(1, 3)) continue;
    std::string f = s.chance(1, 3) ? p : p + ".0." + str_of_int((int)s.draw(5));
    if (s.chance(1, 2)) pre_create(s, f, "x");
  }
  Modes before = modes(dir);
  mode_t left;
  {
    Umask um(mask);
    K->kvtree_write_to_gather(p.c_str(), h, n);
    K->kvtree_read_scatter_single(p.c_str(), d);
    left = um.now();
  }
  unsetenv("KVTREE_ENTRIES_PER_FILE");
  x.note("umask %04o, write_to_gather of %d trees, %zu files exist", mask, n, before.size());
  REQUIRE(left == mask, "serial gather and scatter changed the umask from %04o to %04o", mask, left);
  bool made = false;
  check_modes(before, dir, mask, "write_to_gather", &made);
  if (made) x.nontrivial();
  std::filesystem::remove_all(dir);
}
static void collective_set(Src& s, Ctx& x) {
  World w = make_world(s, x, 8, true);
  std::string dir = scratch() + "/d", p = dir + "/p";
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  std::vector<TP> t;
  for (int i = 0; i < w.n; i++) t.push_back(gen_tree(s, cfg()));
  unsigned long seg = spread(s, x, t);
  set_segsize(seg ? seg : 100 + s.draw(s.chance(1, 2) ? 60 : 800));
  mode_t mask = gen_umask(s);
  if (s.chance(1, 3)) pre_create(s, p, "x");
  if (s.chance(1, 3)) pre_create(s, p + ".0.0", "x");
  Modes before = modes(dir);
  x.note("umask %04o, write_gather on %s, %zu files exist", mask, show_comm(w).c_str(), before.size());
  mode_t left;
  {
    Umask um(mask);
    run_ranks([&](int wr) {
      int me = w.crank[wr];
      if (me < 0) return;
      H h(build(t[me].get())), d(K->kvtree_new());
      K->kvtree_write_gather(p.c_str(), h, w.comm);
      K->kvtree_read_scatter(p.c_str(), d, w.comm);
    });
    left = um.now();
  }
  set_segsize(0);
  REQUIRE(left == mask, "collective gather and scatter changed the umask from %04o to %04o", mask, left);
  bool made = false;
  check_modes(before, dir, mask, "write_gather", &made);
  if (made) x.nontrivial();
  std::filesystem::remove_all(dir);
}

Prop pbt::prop = {
  "F05", "exploration",
  "case = up to five calls under any umask (all 512 values), on missing files and on existing ones with any mode, some with injected failures; or a serial or "
  "collective gather over a directory where some files exist already; modes of all files and the umask are compared; non-trivial: a file was created or existed",
  {{"single", single, 97500, 1500000}, {"serial_set", serial_set, 31200, 480000}, {"collective_set", collective_set, 7800, 120000}},
  {"runs as root, so no umask makes a file unusable", "no default ACL on the directory", "ranks that are threads of one process are scheduled one at a time between MPI calls, so the umask is not probed concurrently"},
};
