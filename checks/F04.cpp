// Every call releases the descriptors and locks it acquired.
#include <filesystem>
#include "fault.hpp"
#include "mpih.hpp"

static TreeCfg cfg() {
  TreeCfg c;
  c.maxnodes = 10;
  c.big = 100000; c.bigrate = 300; c.longrate = 10;
  c.key.maxlen = 500;
  return c;
}
static void check_fds(const std::vector<int>& before, const char* what) {
  std::vector<int> now = open_fds();
  REQUIRE(now == before, "%s: open descriptors were%s and are now%s", what, show_fds(before).c_str(), show_fds(now).c_str());
}
// some state of a path
static std::string prepare(Src& s, Ctx& x, const std::string& p, const std::string& dir, const T* t) {
  std::filesystem::remove_all(p);
  switch (s.weighted({5, 2, 1, 1, 2, 1, 1})) {
    case 0: spew(p, encode_file(t)); return p;
    case 1: x.label("file missing"); return p;
    case 2: spew(p, ""); x.label("file empty"); return p;
    case 3: mkdir(p.c_str(), 0755); x.label("path is a directory"); return p;
    case 4: { std::string b = encode_file(t); if (s.chance(1, 2)) b.resize(s.draw(b.size() - 1)); else b[s.draw(b.size() - 1)] ^= 1 << s.draw(7); spew(p, b); x.label("file damaged"); return p; }
    case 5: x.label("directory missing"); return dir + "/nodir/f";
    default: spew(p, std::string(s.draw(100), 'z')); x.label("file damaged"); return p;
  }
}
// leaves descriptor 0 free for the library
struct NoStdin {
  int keep = -1;
  void close_it() { keep = fcntl(0, F_DUPFD_CLOEXEC, 500); if (keep >= 0) close(0); }
  ~NoStdin() { if (keep >= 0) { dup2(keep, 0); close(keep); } }
};
static void single(Src& s, Ctx& x) {
  static const char* const variants[] = {"flock", "fcntl", "none", "static"};
  int v = (int)s.weighted({4, 4, 1, 1});
  UseLib u(v == 3 ? kv_static() : kv_load(variants[v]));
  bool locks = v != 2;
  std::string dir = scratch(), base = dir + "/f";
  TP t = gen_tree(s, cfg());
  H h(build(t.get()));
  size_t steps = 1 + s.draw(5);
  bool nontriv = false;
  NoStdin ns;
  if (s.chance(1, 10)) { ns.close_it(); x.label("descriptor 0 is free"); }
  std::vector<int> fds = open_fds();
  std::string p = base;
  for (size_t i = 0; i < steps; i++) {
    if (i == 0 || s.chance(1, 2)) p = prepare(s, x, base, dir, t.get());
    Inject j;
    if (s.chance(1, 2)) gen_fault(s, j, locks);
    if (s.chance(1, 20)) { j = Inject(); j.op = sys::SYNC; j.times = -1; }
    int op = (int)s.draw(6);
    H d(K->kvtree_new());
    const char* name = "";
    kvtree* arg = s.chance(1, 30) ? nullptr : h.h;
    kvtree* darg = s.chance(1, 30) ? nullptr : d.h;
    const char* pa = s.chance(1, 40) ? nullptr : p.c_str();
    x.note("op %d: %s%s", op, describe(j).c_str(), !pa || !arg || !darg ? " (a NULL argument)" : "");
    sys::With with(&j);
    switch (op) {
      case 0: name = "read_file"; K->kvtree_read_file(pa, darg); break;
      case 1: name = "write_file"; K->kvtree_write_file(pa, arg); break;
      case 2: name = "read_with_lock"; K->kvtree_read_with_lock(pa, darg); break;
      case 3: name = "write_with_lock"; K->kvtree_write_with_lock(pa, arg); break;
      case 4: {
        name = "lock_open_read";
        int fd = 77;
        int rc = K->kvtree_lock_open_read(pa, &fd, darg);
        if (rc != KVTREE_SUCCESS) { REQUIRE(fd < 0, "lock_open_read fails but hands out descriptor %d", fd); break; }
        std::vector<int> want = fds, now = open_fds();
        want.push_back(fd);
        std::sort(want.begin(), want.end());
        REQUIRE(fd >= (ns.keep >= 0 ? 0 : 3) && now == want, "after lock_open_read (descriptor %d) open descriptors were%s and are now%s", fd, show_fds(fds).c_str(), show_fds(now).c_str());
        if (locks && s.chance(1, 6)) { x.label("lock seen by another process"); REQUIRE(!lockable(p, true), "another process can lock the file between the two halves"); }
        Inject k;
        if (s.chance(1, 2)) gen_fault(s, k, locks);
        if (k.op == sys::NOPS) x.note("closing half: %s", describe(k).c_str());
        const char* pb = s.chance(1, 30) ? nullptr : p.c_str();
        kvtree* wb = s.chance(1, 30) ? nullptr : h.h;
        int keep = fd;
        {
          sys::With w2(&k);
          name = "write_close_unlock";
          int rc2 = K->kvtree_write_close_unlock(pb, &fd, wb);
          if (!pb || !wb) {
            REQUIRE(rc2 != KVTREE_SUCCESS, "write_close_unlock succeeds with a NULL argument");
            if (fd >= 0) {  // refused: the caller still has it
              REQUIRE(fd == keep && open_fds() == want, "write_close_unlock with a NULL argument: descriptor %d was %d", fd, keep);
              K->kvtree_write_close_unlock(p.c_str(), &fd, h);
            }
          }
        }
        REQUIRE(fd == -1, "write_close_unlock leaves %d in the descriptor", fd);
        if (k.fired) nontriv = true;
        break;
      }
      case 5: {
        name = "write_fd";
        int fd = open(base.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0) break;
        K->kvtree_write_fd(pa, fd, arg);
        REQUIRE(fcntl(fd, F_GETFD) >= 0, "write_fd closed the caller's descriptor");
        close(fd);
        break;
      }
      default: {
        name = "read_fd";
        int fd = open(base.c_str(), O_RDWR);
        if (fd < 0) break;
        K->kvtree_read_fd(pa, fd, darg);
        REQUIRE(fcntl(fd, F_GETFD) >= 0, "read_fd closed the caller's descriptor");
        close(fd);
      }
    }
    sys::With off(nullptr);
    if (j.fired) nontriv = true;
    x.label(name);
    check_fds(fds, name);
    struct stat st;
    if (stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode)) REQUIRE(lockable(p), "%s left a lock behind", name);
  }
  std::filesystem::remove_all(base);
  if (nontriv) x.nontrivial();
}
static void spoil(Src& s, const std::string& dir) {
  std::vector<std::string> f;
  for (auto& e : std::filesystem::directory_iterator(dir)) f.push_back(e.path().string());
  std::sort(f.begin(), f.end());
  if (f.empty()) return;
  const std::string& p = s.pick(f);
  switch (s.draw(3)) {
    case 0: unlink(p.c_str()); break;
    case 1: { std::string b = slurp(p); b.resize(b.size() / 2); spew(p, b); break; }
    case 2: unlink(p.c_str()); mkdir(p.c_str(), 0755); break;
    default: spew(p, ""); break;
  }
}
static void serial_set(Src& s, Ctx& x) {
  std::string dir = scratch() + "/set";
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  std::string p = dir + (s.chance(1, 12) ? "/nodir/p" : "/p");
  T all;
  int n = (int)s.draw(6);
  for (int i = 0; i < n; i++) all.put(str_of_int(i), gen_tree(s, cfg()).release());
  setenv("KVTREE_ENTRIES_PER_FILE", std::to_string(1 + s.draw(3)).c_str(), 1);
  H h(build(&all));
  std::vector<int> fds = open_fds();
  Inject j, k;
  if (s.chance(1, 2)) { gen_fault(s, j, false); j.nth += (int)s.draw(4); }
  if (s.chance(1, 2)) { gen_fault(s, k, false); k.nth += (int)s.draw(4); }
  { sys::With w(&j); K->kvtree_write_to_gather(p.c_str(), h, n); }
  check_fds(fds, "write_to_gather");
  bool spoiled = s.chance(1, 2);
  if (spoiled) spoil(s, dir);
  H d(K->kvtree_new());
  { sys::With w(&k); K->kvtree_read_scatter_single(p.c_str(), d); }
  check_fds(fds, "read_scatter_single");
  x.note("%d trees; writing: %s; reading: %s%s", n, describe(j).c_str(), describe(k).c_str(), spoiled ? "; a file spoiled in between" : "");
  unsetenv("KVTREE_ENTRIES_PER_FILE");
  std::filesystem::remove_all(dir);
  if (j.fired || k.fired || spoiled) x.nontrivial();
}
struct RankInject : sys::Hook {
  std::vector<Inject> j;
  std::vector<char> on;
  sys::Act before(const sys::Call& c) override { int r = mpi::me(); return r >= 0 && r < (int)j.size() && on[r] ? j[r].before(c) : sys::Act::pass(); }
};
static void collective_set(Src& s, Ctx& x) {
  World w = make_world(s, x, 10, s.chance(1, 2));
  std::string dir = scratch() + "/set";
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  std::string p = dir + (s.chance(1, 15) ? "/nodir/p" : "/p");
  std::vector<TP> t;
  for (int i = 0; i < w.n; i++) t.push_back(gen_tree(s, cfg()));
  unsigned long seg = spread(s, x, t);
  set_segsize(seg ? seg : 100 + s.draw(s.chance(1, 2) ? 60 : 800));
  RankInject a, b;
  a.j.resize(w.wn); b.j.resize(w.wn);
  a.on.assign(w.wn, 0); b.on.assign(w.wn, 0);
  std::string what;
  for (RankInject* q : {&a, &b}) if (s.chance(1, 2)) {
    int cr = s.chance(1, 2) ? 0 : (int)s.draw(w.n - 1);
    gen_fault(s, q->j[w.ranks[cr]], false);
    what += fmt("%s, rank %d: %s; ", q == &a ? "writing" : "reading", cr, describe(q->j[w.ranks[cr]]).c_str());
  }
  bool spoiled = s.chance(1, 3);
  x.note("%s: %s%s", show_comm(w).c_str(), what.c_str(), spoiled ? "a file spoiled in between" : "");
  std::vector<int> fds = open_fds(), mid;
  {
    sys::With with(&a);
    run_ranks([&](int wr) {
      int me = w.crank[wr];
      if (me < 0) return;
      H h(build(t[me].get()));
      a.on[wr] = 1;
      K->kvtree_write_gather(p.c_str(), h, w.comm);
      a.on[wr] = 0;
    });
  }
  check_fds(fds, "write_gather");
  if (spoiled) spoil(s, dir);
  World w2;
  w2.n = w2.wn = w.n;
  mpi::begin(s, w.n, true);
  {
    sys::With with(&b);
    run_ranks([&](int wr) {
      H d(K->kvtree_new());
      b.on[wr] = 1;
      K->kvtree_read_scatter(p.c_str(), d, MPI_COMM_WORLD);
      b.on[wr] = 0;
    });
  }
  check_fds(fds, "read_scatter");
  set_segsize(0);
  bool fired = spoiled;
  for (auto& j : a.j) fired = fired || j.fired;
  for (auto& j : b.j) fired = fired || j.fired;
  std::filesystem::remove_all(dir);
  if (fired) x.nontrivial();
}

Prop pbt::prop = {
  "F04", "fault_enumeration",
  "case = up to six file, lock and descriptor calls on a path in any state (valid, missing, empty, directory, damaged) with injected failures and NULL arguments, "
  "or a serial or collective gather and scatter with failures and spoiled files; after each call the set of open descriptors is compared and the file locked "
  "from another open file description (between the two halves also from another process); non-trivial: a fault was reached or a file spoiled",
  {{"single", single, 64000, 800000}, {"serial_set", serial_set, 16000, 200000}, {"collective_set", collective_set, 3840, 48000}},
  {"a failing close has released its descriptor", "Linux flock and POSIX locks"},
};
