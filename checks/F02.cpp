// A process that dies while it writes a file never leaves a wrong tree behind.
#include <filesystem>
#include "fault.hpp"
#include "mpih.hpp"

// ends the process at one of its system calls
struct Crash : sys::Hook {
  int at = 0;          // index of the call
  int how = 0;         // 0 before, 1 after, 2 in the middle (writes)
  uint64_t part = 0;   // where in the middle
  int style = 0;
  int seen = 0;
  bool writes = false; // at counts only the writes
  bool dying = false;
  bool real = true;    // else the death is simulated: unwind, then close what was opened
  struct Death {};
  void die() { if (real) _exit(42); throw Death(); }
  sys::Act before(const sys::Call& c) override {
    if (writes && c.op != sys::WRITE) return sys::Act::pass();
    if (seen++ != at) return sys::Act::pass();
    if (how == 0) die();
    dying = true;
    if (how == 2 && c.op == sys::WRITE && c.size > 1) {
      size_t n = c.size - 1, k = style == 0 ? part % n : style == 1 ? part % std::min<size_t>(n, 40) : n - 1 - part % std::min<size_t>(n, 24);
      return sys::Act::limit(k + 1);
    }
    return sys::Act::pass();
  }
  void after(const sys::Call&, long, int) override { if (dying) die(); }
};
static const char* const how_name[] = {"before", "after", "in the middle of"};
static void gen_crash(Src& s, Crash& c, int max) {
  c.at = (int)s.draw(max);
  c.how = (int)s.weighted({2, 2, 4});
  if (c.how == 2 && s.chance(1, 2)) { c.writes = true; c.at /= 4; }
  c.part = s.seed32();
  c.style = (int)s.draw(2);
}
static TreeCfg cfg(Src& s) {
  TreeCfg c;
  c.maxnodes = s.chance(1, 8) ? 150 : 16;
  c.key.maxlen = 3000; c.longrate = 12;
  return c;
}
// a tree of a few long keys: up to hundreds of kilobytes
static TP long_tree(Src& s) {
  TP t(new T);
  size_t n = 1 + s.draw(4);
  for (size_t i = 0; i < n; i++) {
    std::string v(s.chance(1, 3) ? s.draw(300) : s.chance(1, 2) ? s.draw(9000) : s.draw(120000), char('a' + s.draw(3)));
    t->put(fmt("k%zu", i), new T);
    t->sub(fmt("k%zu", i))->put(v, new T);
  }
  return t;
}
// the same tree with parts of its values replaced: the file keeps its size, unless a value grows
static TP retouched(Src& s, const T* t) {
  TP r = clone(t);
  for (auto& k : r->kids) {
    if (!k.second || k.second->kids.size() != 1) continue;
    if (r->kids.size() > 1 && s.chance(1, 2)) continue;
    std::string v = k.second->kids.begin()->first;
    size_t from = v.empty() ? 0 : s.draw(v.size() - 1), len = v.empty() ? 0 : s.chance(1, 2) ? v.size() - from : s.draw(v.size() - from);
    for (size_t i = 0; i < len; i++) v[from + i] = char('d' + (from + i) % 3);
    if (s.chance(1, 6)) v += "more";
    delete k.second;
    k.second = new T;
    k.second->put(v, new T);
  }
  return r;
}
static void crash_history(Src& s, Ctx& x, bool big);
static void one_file(Src& s, Ctx& x) { crash_history(s, x, false); }
static void large(Src& s, Ctx& x) { crash_history(s, x, true); }
static void crash_history(Src& s, Ctx& x, bool big) {
  static const char* const variants[] = {"flock", "fcntl"};
  UseLib u(kv_load(variants[s.draw(1)]));
  std::string p = scratch() + "/f";
  unlink(p.c_str());
  TP old, neu;
  // a history of writes, each of which may be cut short
  std::vector<TP> past;
  past.push_back(nullptr);
  if (s.chance(4, 5)) {
    past.push_back(big ? long_tree(s) : gen_tree(s, cfg(s)));
    H h(build(past.back().get()));
    REQUIRE(K->kvtree_write_file(p.c_str(), h) == KVTREE_SUCCESS, "preparing the file fails");
  }
  size_t rounds = 1 + s.draw(2);
  bool hit = false;
  for (size_t r = 0; r < rounds; r++) {
    const T* last = past.back().get();
    TP t = big ? (last && s.chance(5, 6) ? retouched(s, last) : long_tree(s)) : last && s.chance(2, 3) ? related(s, last, cfg(s), 4) : gen_tree(s, cfg(s));
    int way = (int)s.weighted({3, 4, 4, 1, 1});
    static const char* const wname[] = {"write_file", "write_with_lock", "lock_open_read+write_close_unlock", "read_with_lock", "lock_open_read"};
    Crash c;
    static const int calls[] = {3, 6, 9, 6, 3};
    gen_crash(s, c, s.chance(1, 6) ? 14 : calls[way]);
    c.real = s.chance(1, 12);
    H h(build(t.get()));
    std::string before = slurp(p);
    auto victim = [&]() {
      sys::With with(&c);
      int fd = -1;
      H d(K->kvtree_new());
      switch (way) {
        case 0: K->kvtree_write_file(p.c_str(), h); break;
        case 1: K->kvtree_write_with_lock(p.c_str(), h); break;
        case 2: if (K->kvtree_lock_open_read(p.c_str(), &fd, d) == KVTREE_SUCCESS) K->kvtree_write_close_unlock(p.c_str(), &fd, h); break;
        case 3: K->kvtree_read_with_lock(p.c_str(), d); break;
        default: K->kvtree_lock_open_read(p.c_str(), &fd, d); break;
      }
      return 0;
    };
    int st = 0;
    bool died = false;
    if (c.real) {
      st = in_child(victim);
      died = WIFEXITED(st) && WEXITSTATUS(st) == 42;
      x.label("real process death");
    } else {
      std::vector<int> fds = open_fds();
      try { victim(); } catch (Crash::Death&) { died = true; }
      for (int fd : open_fds()) if (!std::binary_search(fds.begin(), fds.end(), fd)) close(fd);
    }
    x.note("%s of %s dies %s %s %d%s; file had %zu bytes, has %zu", wname[way], show(t.get(), 80).c_str(), how_name[c.how], c.writes ? "write" : "call", c.at, died ? "" : " (not reached)", before.size(), slurp(p).size());
    REQUIRE(died || (WIFEXITED(st) && WEXITSTATUS(st) == 0), "the writing process ends with status %x", st);
    x.label(died ? fmt("died in %s", wname[way]).c_str() : "finished");
    if (died) hit = true;
    bool writes = way <= 2;
    if (writes) past.push_back(std::move(t));
    else if (!before.empty() || exists(p)) REQUIRE(slurp(p) == before, "a reader that died changed the file");
    // possible contents: any of the last writes whose bytes can still be there, but only the last complete
    // one before, or the new one
    if (exists(p)) REQUIRE(lockable(p), "the lock of the dead process still blocks others");
    NoBlock nb;
    sys::With with(&nb);
    auto check = [&](int rc, const kvtree* d, const char* what, bool failure_ok) {
      std::string v = "";
      if (rc != KVTREE_SUCCESS) v = failure_ok ? "failure" : "";
      else {
        TP g = from_real(d);
        if (g->kids.empty()) v = "empty";
        for (size_t i = past.size(); i-- > 0 && v.empty();) if (past[i] && equal(g.get(), past[i].get())) v = i + 1 == past.size() ? "new" : "old";
        if (v.empty()) FAILK("wrong tree", "%s after the crash yields %s", what, show(g.get()).c_str());
      }
      REQUIRE(!v.empty(), "%s after the crash returns %d", what, rc);
      x.label(fmt("%s: %s", what, v.c_str()).c_str());
      if (!died && writes) REQUIRE(v == "new" || (v == "empty" && past.back()->kids.empty()), "%s without a crash gives %s", what, v.c_str());
    };
    { H d(K->kvtree_new()); int rc = K->kvtree_read_file(p.c_str(), d); check(rc, d, "read_file", true); }
    if (s.chance(1, 2)) { H d(K->kvtree_new()); int rc = K->kvtree_read_with_lock(p.c_str(), d); check(rc, d, "read_with_lock", true); }
    if (s.chance(1, 2)) {
      H d(K->kvtree_new());
      int fd = -1, rc = K->kvtree_lock_open_read(p.c_str(), &fd, d);
      check(rc, d, "lock_open_read", false);
      // the survivor updates what it found
      TP g = from_real(d);
      edit(s, d, g.get(), 1 + (unsigned)s.draw(3), cfg(s).key);
      g = from_real(d);
      REQUIRE(K->kvtree_write_close_unlock(p.c_str(), &fd, d) == KVTREE_SUCCESS, "update after the crash fails");
      H e(K->kvtree_new());
      REQUIRE(K->kvtree_read_with_lock(p.c_str(), e) == KVTREE_SUCCESS, "update after the crash cannot be read");
      require_equal(e, g.get(), "update after the crash");
      past.push_back(std::move(g));
      x.label("survivor updates");
    } else if (s.chance(1, 2)) {
      TP g = gen_tree(s, cfg(s));
      H e(build(g.get())), d(K->kvtree_new());
      int rc = s.chance(1, 2) ? K->kvtree_write_with_lock(p.c_str(), e) : K->kvtree_write_file(p.c_str(), e);
      REQUIRE(rc == KVTREE_SUCCESS, "a write after the crash fails");
      REQUIRE(K->kvtree_read_file(p.c_str(), d) == KVTREE_SUCCESS, "a write after the crash cannot be read");
      require_equal(d, g.get(), "write after the crash");
      past.push_back(std::move(g));
      x.label("survivor writes");
    }
  }
  unlink(p.c_str());
  if (hit) x.nontrivial();
}
// a set at a fresh prefix
static void serial_set(Src& s, Ctx& x) {
  std::string dir = scratch() + "/set", p = dir + "/p";
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  T all;
  int n = 1 + (int)s.draw(6);
  TreeCfg c = cfg(s);
  c.maxnodes = 8;
  for (int i = 0; i < n; i++) all.put(str_of_int(i), gen_tree(s, c).release());
  H h(build(&all));
  Crash cr;
  int per = 1 + (int)s.draw(3);
  gen_crash(s, cr, 6 * (n / per + 1));
  cr.real = s.chance(1, 12);
  bool died = false;
  setenv("KVTREE_ENTRIES_PER_FILE", std::to_string(per).c_str(), 1);
  auto victim = [&]() {
    sys::With with(&cr);
    K->kvtree_write_to_gather(p.c_str(), h, n);
    return 0;
  };
  if (cr.real) {
    int st = in_child(victim);
    died = WIFEXITED(st) && WEXITSTATUS(st) == 42;
  } else {
    std::vector<int> fds = open_fds();
    try { victim(); } catch (Crash::Death&) { died = true; }
    for (int fd : open_fds()) if (!std::binary_search(fds.begin(), fds.end(), fd)) close(fd);
  }
  unsetenv("KVTREE_ENTRIES_PER_FILE");
  x.note("write_to_gather of %d trees dies %s %s %d%s", n, how_name[cr.how], cr.writes ? "write" : "call", cr.at, died ? "" : " (not reached)");
  H d(K->kvtree_new());
  int rc = K->kvtree_read_scatter_single(p.c_str(), d);
  if (rc == KVTREE_SUCCESS) require_equal(d, &all, "set after a crash");
  else REQUIRE(died, "reading fails without a crash");
  x.label(rc == KVTREE_SUCCESS ? "set: complete" : "set: failure");
  H e(K->kvtree_new());
  setenv("KVTREE_ENTRIES_PER_FILE", std::to_string(per).c_str(), 1);
  rc = K->kvtree_write_to_gather(p.c_str(), h, n);
  unsetenv("KVTREE_ENTRIES_PER_FILE");
  REQUIRE(rc == KVTREE_SUCCESS && K->kvtree_read_scatter_single(p.c_str(), e) == KVTREE_SUCCESS, "writing the set again fails");
  require_equal(e, &all, "set written again");
  std::filesystem::remove_all(dir);
  if (died) x.nontrivial();
}
static void collective_set(Src& s, Ctx& x) {
  int n = 1 + (int)s.draw(7);
  std::string dir = scratch() + "/set", p = dir + "/p";
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  std::vector<TP> t;
  TreeCfg c = cfg(s);
  c.maxnodes = 8; c.key.maxlen = 500;
  for (int i = 0; i < n; i++) t.push_back(gen_tree(s, c));
  unsigned long seg = spread(s, x, t);
  set_segsize(seg ? seg : 100 + s.draw(s.chance(1, 2) ? 60 : 800));
  Crash cr;
  gen_crash(s, cr, 6 * n);
  mpi::begin(s, n, true);
  int st = in_child([&]() {
    sys::With with(&cr);
    run_ranks([&](int r) {
      H h(build(t[r].get()));
      K->kvtree_write_gather(p.c_str(), h, MPI_COMM_WORLD);
    });
    return 0;
  });
  bool died = WIFEXITED(st) && WEXITSTATUS(st) == 42;
  x.note("write_gather on %d ranks dies %s %s %d%s", n, how_name[cr.how], cr.writes ? "write" : "call", cr.at, died ? "" : " (not reached)");
  std::vector<int> rc(n, -1);
  std::vector<std::string> df(n);
  for (int again = 0; again < 2; again++) {
    mpi::begin(s, n, true);
    run_ranks([&](int r) {
      if (again) {
        H h(build(t[r].get()));
        if (K->kvtree_write_gather(p.c_str(), h, MPI_COMM_WORLD) != KVTREE_SUCCESS) df[r] = "writing again fails";
      }
      H d(K->kvtree_new());
      rc[r] = K->kvtree_read_scatter(p.c_str(), d, MPI_COMM_WORLD);
      if (rc[r] == KVTREE_SUCCESS && df[r].empty()) df[r] = diff(d, t[r].get());
    });
    for (int r = 0; r < n; r++) {
      REQUIRE(rc[r] == rc[0], "ranks disagree after the crash: rank %d gets %d, rank 0 %d", r, rc[r], rc[0]);
      REQUIRE(df[r].empty(), "rank %d: %s", r, df[r].c_str());
    }
    if (again || !died) REQUIRE(rc[0] == KVTREE_SUCCESS, "the set cannot be read");
    if (!again) x.label(rc[0] == KVTREE_SUCCESS ? "set: complete" : "set: failure");
  }
  set_segsize(0);
  std::filesystem::remove_all(dir);
  if (died) x.nontrivial();
}

Prop pbt::prop = {
  "F02", "fault_enumeration",
  "case = up to three rounds in which a child process dies before, after, or in the middle of (partial write of k bytes) any of its system calls while it writes, "
  "updates or reads a file whose earlier content is arbitrary, or (sub large) holds up to hundreds of kilobytes of which parts are replaced by data of the same length (flock and fcntl builds), each followed by plain and locked reads, and an update or write by a "
  "survivor; or a serial or collective gather to a fresh prefix that dies at any call; non-trivial: the process did die in the call",
  {{"one_file", one_file, 30000, 400000}, {"large", large, 6000, 80000}, {"serial_set", serial_set, 6000, 80000}, {"collective_set", collective_set, 750, 10000}},
  {"most deaths of the single-file and serial subs are simulated by unwinding out of the call and closing every descriptor it opened, one in twelve is a real _exit", "process death, not power loss: what was handed to the kernel is kept", "all ranks of a collective call die together"},
};
