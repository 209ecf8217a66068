// An incomplete or damaged gather set is rejected by every process.
#include "gather.hpp"

// every rank of the communicator must report the same; returns it
static int agreed(const World& w, const std::vector<int>& rc, const char* call) {
  for (int i = 0; i < w.n; i++) REQUIRE((rc[i] == KVTREE_SUCCESS) == (rc[0] == KVTREE_SUCCESS), "%s: rank %d reports %d, rank 0 reports %d", call, i, rc[i], rc[0]);
  return rc[0];
}
static int read_all(const World& w, const std::string& prefix, const std::vector<TP>* want, RankInject* inj = nullptr) {
  std::vector<int> rc(w.n, 12345);
  std::vector<std::string> wrong(w.n);
  run_ranks([&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    H d(K->kvtree_new());
    if (inj) inj->on[wr] = 1;
    rc[me] = K->kvtree_read_scatter(prefix.c_str(), d, w.comm);
    if (inj) inj->on[wr] = 0;
    if (want && rc[me] == KVTREE_SUCCESS) wrong[me] = diff(d, (*want)[me].get());
  });
  int all = agreed(w, rc, "read_scatter");
  for (int i = 0; i < w.n; i++) REQUIRE(wrong[i].empty(), "read_scatter reports success, but rank %d gets a different tree: %s", i, wrong[i].c_str());
  return all;
}
static int write_all(const World& w, const std::string& prefix, const std::vector<TP>& t, RankInject* inj = nullptr) {
  std::vector<int> rc(w.n, 12345);
  run_ranks([&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    H h(build(t[me].get()));
    if (inj) inj->on[wr] = 1;
    rc[me] = K->kvtree_write_gather(prefix.c_str(), h, w.comm);
    if (inj) inj->on[wr] = 0;
  });
  return agreed(w, rc, "write_gather");
}
static int read_serial(const std::string& prefix) {
  UseLib u(kv_static());
  H d(K->kvtree_new());
  return K->kvtree_read_scatter_single(prefix.c_str(), d);
}
// an undamaged set, written in one of the two ways
static void make_set(Src& s, Ctx& x, const World& w, const std::string& prefix, const std::vector<TP>& t, unsigned long own_seg) {
  if (own_seg || s.chance(2, 3)) {
    Seg seg(own_seg ? own_seg : s.chance(1, 8) ? 0 : 100 + s.draw(s.chance(2, 3) ? 30 : 2000));
    REQUIRE(write_all(w, prefix, t) == KVTREE_SUCCESS, "write_gather fails");
    x.label("written collectively");
    x.note("written collectively");
  } else {
    UseLib u(kv_static());
    unsigned per = s.chance(1, 6) ? 0 : 1 + (unsigned)s.draw(s.chance(1, 2) ? 3 : t.size() + 1);
    Env env("KVTREE_ENTRIES_PER_FILE", per ? str_of_int((int)per) : "");
    TP all = by_rank(t);
    H h(build(all.get()));
    REQUIRE(K->kvtree_write_to_gather(prefix.c_str(), h, (int)t.size()) == KVTREE_SUCCESS, "write_to_gather fails");
    x.label("written serially");
    x.note("written serially, %u per file", per);
  }
}
// harm one file; false: it is as it was
static bool harm(Src& s, Ctx& x, const std::string& p) {
  std::string b = slurp(p), o = b, name = p.substr(p.rfind('/') + 1);
  switch (s.weighted({4, 4, 1, 1, 5, 1, 1})) {
    case 0: unlink(p.c_str()); x.label("file missing"); x.note("%s removed", name.c_str()); return true;
    case 1: b.resize(b.empty() ? 0 : s.draw(b.size() - 1)); x.label("file cut short"); x.note("%s cut to %zu of %zu bytes", name.c_str(), b.size(), o.size()); break;
    case 2: b.clear(); x.label("file empty"); x.note("%s emptied", name.c_str()); break;
    case 3: unlink(p.c_str()); mkdir(p.c_str(), 0755); x.label("file replaced by a directory"); x.note("%s replaced by a directory", name.c_str()); return true;
    case 4: {
      // one bit
      size_t i = s.draw(b.size() - 1), bit = s.draw(7);
      b[i] ^= (char)(1 << bit);
      x.label("a flipped bit");
      x.note("%s: bit %zu of byte %zu of %zu flipped", name.c_str(), bit, i, b.size());
      break;
    }
    case 5: {  // a run of bytes overwritten
      size_t i = s.draw(b.size() - 1), n = 1 + s.draw(20);
      for (size_t k = i; k < b.size() && k < i + n; k++) b[k] = 0;
      x.label("bytes overwritten");
      x.note("%s: zeros at %zu", name.c_str(), i);
      break;
    }
    default: unlink(p.c_str()); if (symlink("nowhere", p.c_str())) {} x.label("file missing"); x.note("%s replaced by a dangling link", name.c_str()); return true;
  }
  spew(p, b);
  return b != o;
}
static void damage(Src& s, Ctx& x) {
  World w = make_world(s, x, thorough ? 33 : 12, s.chance(1, 2));
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir);
  std::vector<TP> t = gen_rank_trees(s, x, w.n);
  unsigned long own_seg = spread(s, x, t);
  x.note("%s; %s", show_comm(w).c_str(), show_trees(t).c_str());
  earlier_set(s, x, prefix, w.n);
  make_set(s, x, w, prefix, t, own_seg);
  Layout l = check_layout(prefix, t);
  std::sort(l.files.begin(), l.files.end());
  std::string p = s.pick(l.files);
  if (l.levels > 1 && s.chance(1, 3)) {  // an inner index file
    std::vector<std::string> inner;
    for (auto& f : l.files) { bool in = f != prefix; for (auto& q : l.parts) in = in && f != prefix + q.first; if (in) inner.push_back(f); }
    if (!inner.empty()) p = s.pick(inner);
  }
  bool part = p == prefix;
  for (auto& q : l.parts) part = part || p == prefix + q.first;
  if (!harm(s, x, p)) throw Discard();
  REQUIRE(read_all(w, prefix, nullptr) != KVTREE_SUCCESS, "read_scatter succeeds although %s is damaged", p.substr(p.rfind('/') + 1).c_str());
  REQUIRE(read_serial(prefix) != KVTREE_SUCCESS, "read_scatter_single succeeds although %s is damaged", p.substr(p.rfind('/') + 1).c_str());
  x.label(p == prefix ? "damaged: root" : part ? "damaged: data file" : "damaged: index file");
  x.label(fmt("index levels: %d", l.levels).c_str());
  // later, a new set under the same name is fine
  if (s.chance(1, 4)) {
    fresh_dir(prefix.substr(0, prefix.rfind('/')));
    REQUIRE(write_all(w, prefix, t) == KVTREE_SUCCESS, "a later write_gather fails");
    REQUIRE(read_all(w, prefix, &t) == KVTREE_SUCCESS, "a later read_scatter fails");
  }
  std::filesystem::remove_all(dir);
  if (l.files.size() > 2 || w.n > 1) x.nontrivial();
}
static void count(Src& s, Ctx& x) {
  int maxn = thorough ? 33 : 12;
  World w = make_world(s, x, maxn, s.chance(1, 2));
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir);
  std::vector<TP> t = gen_rank_trees(s, x, w.n);
  unsigned long own_seg = spread(s, x, t);
  x.note("%s; %s", show_comm(w).c_str(), show_trees(t).c_str());
  make_set(s, x, w, prefix, t, own_seg);
  Layout l = check_layout(prefix, t);
  bool mixed = w.n > 1 && s.chance(1, 3);
  if (mixed) {
    // one data file comes from a set of another size
    int r = 0;
    const auto& part = l.parts[s.draw(l.parts.size() - 1)];
    T f;
    bool ok;
    decode_file(slurp(prefix + part.first, &ok), &f);
    do r = (int)s.range(1, maxn + 1); while (r == w.n && maxn > 0 && s.used() < 60000);
    if (r == w.n) throw Discard();
    f.kids.erase("RANKS");
    f.sub("RANKS")->sub(str_of_int(r));
    spew(prefix + part.first, encode_file(&f));
    x.note("%s says it was written by %d", part.first.c_str(), r);
    x.label("one file of another process count");
    REQUIRE(read_all(w, prefix, nullptr) != KVTREE_SUCCESS, "read_scatter succeeds on %d ranks although %s was written by %d", w.n, part.first.c_str(), r);
    x.nontrivial();
  } else {
    int m;
    size_t tries = 0;
    do m = gen_ranks(s, maxn); while (m == w.n && ++tries < 20);
    if (m == w.n) throw Discard();
    World v;
    v.n = v.wn = m;
    v.comm = nullptr;
    for (int i = 0; i < m; i++) { v.ranks.push_back(i); v.crank.push_back(i); }
    mpi::begin(s, m, s.chance(1, 2));
    v.comm = MPI_COMM_WORLD;
    x.note("read by %d", m);
    x.label(m < w.n ? "fewer readers" : "more readers");
    REQUIRE(read_all(v, prefix, nullptr) != KVTREE_SUCCESS, "read_scatter succeeds on %d ranks for a set written by %d", m, w.n);
    x.nontrivial();
  }
  std::filesystem::remove_all(dir);
}
static void label_fault(Ctx& x, const Inject& j) {
  if (!j.fired) { x.label("fault not reached"); return; }
  x.label(fmt("fault: %s%s", sys::op_name[j.op], j.permanent() ? " (for good)" : "").c_str());
  x.nontrivial();
}
static void write_fault(Src& s, Ctx& x) {
  World w = make_world(s, x, thorough ? 33 : 12, s.chance(1, 2));
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir);
  std::vector<TP> t = gen_rank_trees(s, x, w.n, 200);
  unsigned long own_seg = spread(s, x, t);
  Seg seg(own_seg ? own_seg : s.chance(1, 8) ? 0 : 100 + s.draw(s.chance(2, 3) ? 30 : 2000));
  // mostly on a rank that writes
  RankInject inj(w.wn);
  size_t bad = s.chance(1, 6) ? 2 : 1;
  std::string what;
  std::vector<int> hit;
  for (size_t k = 0; k < bad; k++) {
    int r = s.chance(1, 3) ? 0 : (int)s.draw(w.n - 1);
    Inject& j = inj.j[w.ranks[r]];
    do { j = Inject(); gen_fault(s, j, false); } while ((j.op == sys::READ || j.op == sys::TRUNC) && s.used() < 60000);
    if (s.chance(1, 3)) j.nth = (int)s.draw(2);
    what += fmt("rank %d: %s; ", r, describe(j).c_str());
    hit.push_back(w.ranks[r]);
  }
  x.note("%s: %s %s", show_comm(w).c_str(), what.c_str(), show_trees(t).c_str());
  bool nodir = s.chance(1, 20);
  if (nodir) {
    x.label("directory missing");
    REQUIRE(write_all(w, dir + "/nodir/p", t) != KVTREE_SUCCESS, "write_gather into a directory that does not exist succeeds");
    REQUIRE(read_all(w, dir + "/nodir/p", nullptr) != KVTREE_SUCCESS, "read_scatter from a directory that does not exist succeeds");
  }
  int rc;
  {
    sys::With with(&inj);
    rc = write_all(w, prefix, t, &inj);
  }
  bool fired = false;
  for (int h : hit) {
    Inject& j = inj.j[h];
    label_fault(x, j);
    fired = fired || j.fired;
    if (!j.fired) continue;
    if (j.op == sys::OPEN || j.op == sys::WRITE) REQUIRE(rc != KVTREE_SUCCESS || !j.permanent(), "write_gather succeeds although on world rank %d %s", h, describe(j).c_str());
    if (j.op == sys::CLOSE && j.kind == Inject::ERR) REQUIRE(rc != KVTREE_SUCCESS, "write_gather succeeds although on world rank %d %s", h, describe(j).c_str());
  }
  REQUIRE(rc == KVTREE_SUCCESS || fired, "write_gather fails without any fault");
  x.label(rc == KVTREE_SUCCESS ? "outcome: success" : "outcome: failure");
  if (rc == KVTREE_SUCCESS) {
    check_layout(prefix, t);
    REQUIRE(read_all(w, prefix, &t) == KVTREE_SUCCESS, "write_gather succeeds, read_scatter fails");
  } else {
    read_all(w, prefix, nullptr);  // whatever it says, all say the same
    REQUIRE(write_all(w, prefix, t) == KVTREE_SUCCESS, "a later undisturbed write_gather fails");
    REQUIRE(read_all(w, prefix, &t) == KVTREE_SUCCESS, "read_scatter fails after an undisturbed write_gather");
  }
  std::filesystem::remove_all(dir);
}
static void read_fault(Src& s, Ctx& x) {
  World w = make_world(s, x, thorough ? 33 : 12, s.chance(1, 2));
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir);
  std::vector<TP> t = gen_rank_trees(s, x, w.n, 200);
  unsigned long own_seg = spread(s, x, t);
  x.note("%s; %s", show_comm(w).c_str(), show_trees(t).c_str());
  make_set(s, x, w, prefix, t, own_seg);
  RankInject inj(w.wn);
  int r = s.chance(1, 2) ? 0 : (int)s.draw(w.n - 1);
  Inject& j = inj.j[w.ranks[r]];
  do { j = Inject(); gen_fault(s, j, false); } while (j.op == sys::WRITE && s.used() < 60000);
  if (s.chance(1, 2)) { j.op = s.chance(1, 2) ? sys::OPEN : sys::READ; if (j.op == sys::OPEN) { j.kind = Inject::ERR; j.err = s.chance(1, 2) ? EACCES : EMFILE; } if (s.chance(1, 2)) j.times = -1; }
  if ((j.err == EINTR || j.err == EAGAIN) && j.op == sys::READ && j.times < 0) j.times = 7;
  x.note("rank %d: %s", r, describe(j).c_str());
  int rc;
  {
    sys::With with(&inj);
    rc = read_all(w, prefix, &t, &inj);
  }
  label_fault(x, j);
  if (j.fired && j.permanent() && (j.op == sys::OPEN || j.op == sys::READ)) REQUIRE(rc != KVTREE_SUCCESS, "read_scatter succeeds although on rank %d %s", r, describe(j).c_str());
  REQUIRE(rc == KVTREE_SUCCESS || j.fired, "read_scatter fails without any fault");
  x.label(rc == KVTREE_SUCCESS ? "outcome: success" : "outcome: failure");
  REQUIRE(read_all(w, prefix, &t) == KVTREE_SUCCESS, "a later undisturbed read_scatter fails");
  std::filesystem::remove_all(dir);
}
// files that are intact but do not contain what they should
static void inconsistent(Src& s, Ctx& x) {
  World w = make_world(s, x, 9, s.chance(1, 2));
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir);
  std::vector<TP> t = gen_rank_trees(s, x, w.n, 200);
  unsigned long own_seg = spread(s, x, t);
  x.note("%s; %s", show_comm(w).c_str(), show_trees(t).c_str());
  make_set(s, x, w, prefix, t, own_seg);
  Layout l = check_layout(prefix, t);
  std::sort(l.files.begin(), l.files.end());
  std::string p = s.pick(l.files), name = p.substr(p.rfind('/') + 1);
  bool root = p == prefix, part = false;
  for (auto& q : l.parts) part = part || p == prefix + q.first;
  T f;
  bool ok;
  decode_file(slurp(p, &ok), &f);
  bool must = false;
  T* rk = f.at("RANK");
  switch (s.draw(part ? 1 : 4)) {
    case 0: f.kids.erase("RANKS"); must = part; x.label("no RANKS"); break;
    case 1: f.kids.erase("LEVEL"); must = root; x.label("no LEVEL"); break;
    case 2: f.kids.erase("RANK"); x.label("no RANK"); break;
    case 3: if (rk && !rk->kids.empty()) { auto i = rk->kids.begin(); std::advance(i, s.draw(rk->kids.size() - 1)); if (i->second) { i->second->kids.erase("FILE"); must = true; } } x.label("an entry without FILE"); break;
    default: if (rk && !rk->kids.empty()) { auto i = rk->kids.begin(); std::advance(i, s.draw(rk->kids.size() - 1)); if (i->second) { i->second->kids.erase("OFFSET"); must = true; } } x.label("an entry without OFFSET"); break;
  }
  x.note("%s becomes %s", name.c_str(), show(&f, 200).c_str());
  spew(p, encode_file(&f));
  read_serial(prefix);  // without a crash
  int rc = read_all(w, prefix, nullptr);
  if (must) REQUIRE(rc != KVTREE_SUCCESS, "read_scatter succeeds although %s is %s", name.c_str(), show(&f, 200).c_str());
  x.label(rc == KVTREE_SUCCESS ? "outcome: success" : "outcome: failure");
  std::filesystem::remove_all(dir);
  x.nontrivial();
}
// a serial set that does not have a tree for every rank, as written or because a part of it lost some
static void absent(Src& s, Ctx& x) {
  int n = 1 + (int)s.draw(s.chance(1, 8) ? 60 : 11);
  std::string dir = scratch() + "/d";
  fresh_dir(dir);
  std::string prefix = gen_prefix(s, x, dir);
  std::vector<TP> t;
  Rng r(s.seed32());
  for (int i = 0; i < n; i++) { t.push_back(TP(new T)); if (r.below(4)) t.back()->sub("k")->sub(str_of_int((int)r.below(1000))); }
  TP all = by_rank(t);
  bool written = s.chance(1, 2);
  std::vector<int> gone;
  size_t ng = 1 + s.draw(s.chance(1, 2) ? 0 : n - 1);
  for (size_t i = 0; i < ng; i++) { int k = s.chance(1, 3) ? (s.chance(1, 2) ? 0 : n - 1) : (int)s.draw(n - 1); if (std::find(gone.begin(), gone.end(), k) == gone.end()) gone.push_back(k); }
  std::string g;
  for (int k : gone) g += fmt(" %d", k);
  if (written) for (int k : gone) all->kids.erase(str_of_int(k));
  unsigned per = s.chance(1, 4) ? 0 : 1 + (unsigned)s.draw(s.chance(1, 2) ? 3 : n + 1);
  static const char* const variants[] = {"static", "flock", "mpi"};
  int v = (int)s.draw(2);
  UseLib u(v == 0 ? kv_static() : kv_load(variants[v]));
  {
    Env env("KVTREE_ENTRIES_PER_FILE", per ? str_of_int((int)per) : "");
    H h(build(all.get()));
    int rc = K->kvtree_write_to_gather(prefix.c_str(), h, n);
    if (rc != KVTREE_SUCCESS) { x.label("refused when written"); x.note("%d ranks without%s: refused", n, g.c_str()); std::filesystem::remove_all(dir); REQUIRE(written, "write_to_gather fails"); return; }
  }
  if (!written) {
    Layout l = check_layout(prefix, t);
    for (auto& q : l.parts) for (int k : gone) if (std::count(q.second.begin(), q.second.end(), k)) {
      T f;
      decode_file(slurp(prefix + q.first), &f);
      f.at("RANK")->kids.erase(str_of_int(k));
      spew(prefix + q.first, encode_file(&f));
    }
  }
  x.note("%d ranks, %u per file, %s without%s", n, per, written ? "written" : "changed to a set", g.c_str());
  H d(K->kvtree_new());
  REQUIRE(K->kvtree_read_scatter_single(prefix.c_str(), d) != KVTREE_SUCCESS, "read_scatter_single succeeds although %zu of %d ranks are not in the set", gone.size(), n);
  x.label(written ? "written without some ranks" : "some ranks taken out");
  std::filesystem::remove_all(dir);
  x.nontrivial();
}

Prop pbt::prop = {
  "G05", "fault_enumeration",
  "case = a set written collectively (segments from 100 bytes on) or serially by up to 12 ranks (33 thorough); (damage) one of its files removed, cut, emptied, replaced or one bit flipped: the collective "
  "reader must fail on every rank, and the serial reader too; (count) read by another number of ranks, or with one data file of another number: fails everywhere; "
  "(write_fault, read_fault) failures of open, read, write, close, seek on one or two ranks: all ranks report the same, never success when a file could not be opened, written or read, success only with "
  "the right content, and the next undisturbed call works; (inconsistent) intact files without some of their entries: same outcome everywhere, failure where the entry is needed; (absent) a set written, or changed, so that it has no tree for some ranks: the serial reader fails; ranks that wait for ever "
  "are detected; non-trivial: a fault was reached, or more than one rank",
  {{"damage", damage, 3000, 60000}, {"count", count, 1500, 30000}, {"write_fault", write_fault, 2000, 40000}, {"read_fault", read_fault, 2000, 40000}, {"inconsistent", inconsistent, 1000, 20000}, {"absent", absent, 1500, 30000}},
  {"one damaged file at a time", "a failing close has released its descriptor"},
};
