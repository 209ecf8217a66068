// A write that reports success has stored the complete tree.
#include <filesystem>
#include "fault.hpp"
#include "mpih.hpp"

static TreeCfg cfg(Src& s) {
  TreeCfg c;
  c.maxnodes = s.chance(1, 10) ? 200 : 20;
  c.big = 1000000; c.bigdeep = 30000; c.bigwide = 10000; c.bigrate = 300; c.longrate = 10;
  c.key.maxlen = 3000;
  return c;
}
static TP read_plain(const std::string& p, int* rc) {
  H d(K->kvtree_new());
  *rc = K->kvtree_read_file(p.c_str(), d);
  return from_real(d);
}
static void label_fault(Ctx& x, const Inject& j) {
  if (!j.fired) { x.label("fault not reached"); return; }
  x.label(fmt("fault: %s%s", sys::op_name[j.op], j.permanent() ? " (for good)" : "").c_str());
  x.nontrivial();
}
static void one_file(Src& s, Ctx& x) {
  static const char* const variants[] = {"flock", "fcntl"};
  int way = (int)s.weighted({3, 3, 4});
  UseLib u(kv_load(variants[s.draw(1)]));
  TP t = gen_tree(s, cfg(s)), old = s.chance(1, 4) ? nullptr : s.chance(1, 2) ? related(s, t.get(), cfg(s), 6) : gen_tree(s, cfg(s));
  std::string p = scratch() + "/f";
  unlink(p.c_str());
  std::string before;
  if (old) { Rng o(s.seed32()); before = encode_file(old.get(), true, &o); spew(p, before); }
  Rng o(s.seed32());
  H h(build(t.get(), &o));
  Inject j;
  gen_fault(s, j, way != 0);
  static const char* const wname[] = {"write_file", "write_with_lock", "lock_open_read+write_close_unlock"};
  x.note("%s of %s over %s: %s", wname[way], show(t.get(), 100).c_str(), old ? show(old.get(), 100).c_str() : "nothing", describe(j).c_str());
  int rc, fd = -1, rc1 = KVTREE_SUCCESS;
  std::string snap = snapshot(h);
  H d(K->kvtree_new());
  std::string dsnap = snapshot(d);
  int phase = 0;
  {
    sys::With with(&j);
    if (way == 0) rc = K->kvtree_write_file(p.c_str(), h);
    else if (way == 1) rc = K->kvtree_write_with_lock(p.c_str(), h);
    else {
      rc1 = K->kvtree_lock_open_read(p.c_str(), &fd, d);
      phase = 1;
      if (rc1 == KVTREE_SUCCESS) { phase = 2; rc = K->kvtree_write_close_unlock(p.c_str(), &fd, h); }
      else rc = rc1;
    }
  }
  if (fd >= 0) close(fd);
  label_fault(x, j);
  REQUIRE(!j.touched_after_lock_failure, "a file is read or written although the lock was not obtained");
  if (j.lock_failed) {
    REQUIRE(rc != KVTREE_SUCCESS, "success although the lock was not obtained");
    REQUIRE(slurp(p) == before, "the file changed although the lock was not obtained");
    REQUIRE(snapshot(d) == dsnap, "something was read although the lock was not obtained");
    REQUIRE(phase != 1 || fd == -1, "descriptor %d handed out although the lock was not obtained", fd);
  }
  if (rc == KVTREE_SUCCESS) {
    int rr;
    TP got = read_plain(p, &rr);
    REQUIRE(rr == KVTREE_SUCCESS, "success reported, but the file cannot be read (%s)", describe(j).c_str());
    REQUIRE(equal(got.get(), t.get()), "success reported, but the file holds %s", show(got.get()).c_str());
    if (j.fired && (j.op == sys::OPEN || j.op == sys::LOCK || j.op == sys::WRITE)) REQUIRE(!j.permanent(), "success although %s", describe(j).c_str());
    if (j.fired && j.op == sys::CLOSE) FAILK("close", "success although %s", describe(j).c_str());
  } else if (!j.fired) FAILK("spurious", "failure without any fault");
  // later, without faults, all is well
  NoBlock nb;
  sys::With with(&nb);
  rc = way == 0 ? K->kvtree_write_file(p.c_str(), h) : K->kvtree_write_with_lock(p.c_str(), h);
  REQUIRE(rc == KVTREE_SUCCESS, "a later undisturbed write fails");
  int rr;
  TP got = read_plain(p, &rr);
  REQUIRE(rr == KVTREE_SUCCESS && equal(got.get(), t.get()), "a later undisturbed write is not read back");
  REQUIRE(snapshot(h) == snap, "writing changed the tree");
  unlink(p.c_str());
}
// reading under faults: success means the complete tree
static void reading(Src& s, Ctx& x) {
  static const char* const variants[] = {"flock", "fcntl"};
  UseLib u(kv_load(variants[s.draw(1)]));
  TP t = gen_tree(s, cfg(s));
  std::string p = scratch() + "/f";
  spew(p, encode_file(t.get()));
  bool locked = s.chance(1, 2);
  Inject j;
  gen_fault(s, j, locked);
  x.note("%s of %s: %s", locked ? "read_with_lock" : "read_file", show(t.get(), 100).c_str(), describe(j).c_str());
  TP dest = s.chance(1, 2) ? TP(new T) : related(s, t.get(), cfg(s), 4);
  H d(build(dest.get()));
  std::string dsnap = snapshot(d);
  int rc;
  {
    sys::With with(&j);
    rc = locked ? K->kvtree_read_with_lock(p.c_str(), d) : K->kvtree_read_file(p.c_str(), d);
  }
  label_fault(x, j);
  REQUIRE(!j.touched_after_lock_failure, "a file is read or written although the lock was not obtained");
  if (j.lock_failed) REQUIRE(rc != KVTREE_SUCCESS && snapshot(d) == dsnap, "something was read although the lock was not obtained");
  if (rc == KVTREE_SUCCESS) {
    if (j.kind == Inject::ZERO && j.op == sys::READ) return;
    merge(dest.get(), t.get());
    require_equal(d, dest.get(), "read with success under faults");
  } else if (!j.fired) FAILK("spurious", "failure without any fault");
  unlink(p.c_str());
}
static std::vector<std::string> files_in(const std::string& dir) {
  std::vector<std::string> f;
  for (auto& e : std::filesystem::directory_iterator(dir)) f.push_back(e.path().string());
  std::sort(f.begin(), f.end());
  return f;
}
// serial gather files
static void serial_set(Src& s, Ctx& x) {
  std::string dir = scratch() + "/set";
  mkdir(dir.c_str(), 0755);
  std::string p = dir + "/p";
  T all;
  int n = (int)s.draw(8);
  TreeCfg c;
  c.maxnodes = 8; c.key.maxlen = 500; c.longrate = 30;
  for (int i = 0; i < n; i++) all.put(str_of_int(i), gen_tree(s, c).release());
  int per = 1 + (int)s.draw(3);
  setenv("KVTREE_ENTRIES_PER_FILE", std::to_string(per).c_str(), 1);
  H h(build(&all));
  Inject j;
  gen_fault(s, j, false);
  if (s.chance(1, 3)) {  // one file of the set only
    NoBlock nb;
    sys::With with(&nb);
    K->kvtree_write_to_gather(p.c_str(), h, n);
    j.only = s.pick(files_in(dir));
    std::filesystem::remove_all(dir);
    mkdir(dir.c_str(), 0755);
    x.label("fault on one file");
  } else if (s.chance(1, 3)) j.nth += (int)s.draw(6);
  x.note("write_to_gather of %d trees, %d per file: %s", n, per, describe(j).c_str());
  int rc;
  {
    sys::With with(&j);
    rc = K->kvtree_write_to_gather(p.c_str(), h, n);
  }
  unsetenv("KVTREE_ENTRIES_PER_FILE");
  label_fault(x, j);
  if (rc == KVTREE_SUCCESS) {
    H d(K->kvtree_new());
    int rr = K->kvtree_read_scatter_single(p.c_str(), d);
    REQUIRE(rr == KVTREE_SUCCESS, "success reported, but the set cannot be read (%s)", describe(j).c_str());
    require_equal(d, &all, "success reported");
    if (j.fired && (j.op == sys::OPEN || j.op == sys::WRITE)) REQUIRE(!j.permanent(), "success although %s", describe(j).c_str());
    if (j.fired && j.op == sys::CLOSE) FAILK("close", "success although %s", describe(j).c_str());
  } else if (!j.fired) FAILK("spurious", "failure without any fault");
  std::filesystem::remove_all(dir);
}
struct RankInject : sys::Hook {
  std::vector<Inject> j;
  std::vector<char> on;
  Inject* all = nullptr;  // one for all ranks
  sys::Act before(const sys::Call& c) override { int r = mpi::me(); return r >= 0 && r < (int)j.size() && on[r] ? (all ? all : &j[r])->before(c) : sys::Act::pass(); }
  void after(const sys::Call& c, long v, int e) override { int r = mpi::me(); if (r >= 0 && r < (int)j.size() && on[r]) (all ? all : &j[r])->after(c, v, e); }
};
static void collective_set(Src& s, Ctx& x) {
  World w = make_world(s, x, 12, s.chance(1, 2));
  std::string dir = scratch() + "/set";
  mkdir(dir.c_str(), 0755);
  std::string p = dir + "/p";
  std::vector<TP> t;
  TreeCfg c;
  c.maxnodes = 8; c.key.maxlen = 800; c.longrate = 60;
  for (int i = 0; i < w.n; i++) t.push_back(gen_tree(s, c));
  unsigned long seg = spread(s, x, t);
  set_segsize(seg ? seg : s.chance(1, 4) ? 0 : 100 + s.draw(s.chance(1, 2) ? 60 : 800));
  RankInject ri;
  ri.j.resize(w.wn);
  ri.on.assign(w.wn, 0);
  int bad = 1 + (int)s.draw(w.n > 1 ? 1 : 0);
  std::string what;
  Inject one;
  if (s.chance(1, 3)) {  // one file of the set only
    run_ranks([&](int wr) {
      if (w.crank[wr] < 0) return;
      H h(build(t[w.crank[wr]].get()));
      K->kvtree_write_gather(p.c_str(), h, w.comm);
    });
    std::vector<std::string> f = files_in(dir);
    gen_fault(s, one, false);
    if (one.op == sys::READ) one.op = sys::OPEN, one.kind = Inject::ERR, one.err = EACCES;
    one.only = s.pick(f);
    ri.all = &one;
    what = describe(one);
    std::filesystem::remove_all(dir);
    mkdir(dir.c_str(), 0755);
    bad = 0;
    x.label("fault on one file");
    x.label(fmt("files of rank 0: %d", (int)std::count_if(f.begin(), f.end(), [&](const std::string& q) { return q == p || q.compare(q.rfind('.'), 3, ".0") == 0; })).c_str());
  }
  for (int i = 0; i < bad; i++) {
    int cr = s.chance(1, 2) ? 0 : (int)s.draw(w.n - 1);
    Inject& j = ri.j[w.ranks[cr]];
    if (j.op != sys::NOPS) continue;
    j = Inject();
    gen_fault(s, j, false);
    if (j.op == sys::READ) j.op = sys::NOPS;
    what += fmt("rank %d: %s; ", cr, describe(j).c_str());
  }
  x.note("write_gather, %s: %s", show_comm(w).c_str(), what.c_str());
  std::vector<int> rc(w.wn, -1), rr(w.wn, -1);
  std::vector<std::string> df(w.wn);
  bool fired = false, permanent = false, closef = false;
  sys::With with(&ri);
  run_ranks([&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    H h(build(t[me].get()));
    ri.on[wr] = 1;
    rc[wr] = K->kvtree_write_gather(p.c_str(), h, w.comm);
    ri.on[wr] = 0;
    MPI_Barrier(w.comm);
    if (rc[wr] != KVTREE_SUCCESS) return;
    H d(K->kvtree_new());
    rr[wr] = K->kvtree_read_scatter(p.c_str(), d, w.comm);
    df[wr] = diff(d, t[me].get());
  });
  set_segsize(0);
  ri.j.push_back(one);
  for (auto& j : ri.j) {
    if (!j.fired) continue;
    fired = true;
    if (j.permanent() && (j.op == sys::OPEN || j.op == sys::WRITE)) permanent = true;
    if (j.op == sys::CLOSE) closef = true;
    x.label(fmt("fault: %s%s", sys::op_name[j.op], j.permanent() ? " (for good)" : "").c_str());
  }
  int first = rc[w.ranks[0]];
  for (int i = 1; i < w.n; i++) REQUIRE(rc[w.ranks[i]] == first, "ranks disagree: rank %d gets %d, rank 0 gets %d", i, rc[w.ranks[i]], first);
  if (first == KVTREE_SUCCESS) {
    REQUIRE(!permanent, "success although %s", what.c_str());
    REQUIRE(!closef, "success although a close failed: %s", what.c_str());
    for (int i = 0; i < w.n; i++) {
      REQUIRE(rr[w.ranks[i]] == KVTREE_SUCCESS, "success reported, but the set cannot be read");
      REQUIRE(df[w.ranks[i]].empty(), "success reported, but rank %d gets another tree: %s", i, df[w.ranks[i]].c_str());
    }
  } else REQUIRE(fired, "failure without any fault");
  if (fired) x.nontrivial();
  std::filesystem::remove_all(dir);
}

Prop pbt::prop = {
  "F01", "fault_enumeration",
  "case = one writing call (plain, locked, read-modify-write; flock and fcntl builds), one reading call, or one serial or collective gather, with a generated "
  "fault: an open, lock, unlock, read, write, seek, truncate or close call failing once, a few times or for good, short or zero transfers, or a disk that fills "
  "up after n bytes (for collectives on one or two ranks; for sets also on a single file); oracle: success only if reading back gives the tree, failure for permanent faults, no data touched "
  "after a failed lock; non-trivial: the fault was reached",
  {{"one_file", one_file, 60000, 1200000}, {"reading", reading, 20000, 400000}, {"serial_set", serial_set, 10000, 200000}, {"collective_set", collective_set, 4000, 80000}},
  {"a failing close has released its descriptor", "results of fsync are not asserted"},
};
