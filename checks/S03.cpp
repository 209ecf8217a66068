// Reading a file gives back exactly the tree last written to it.
#include <fcntl.h>
#include <unistd.h>
#include "ops.hpp"
#include "beyond.hpp"

static const char* const variants[] = {"static", "fcntl", "none", "mpi", "noswap"};
static const KV* lib(const char* v) { return !strcmp(v, "static") ? kv_static() : kv_load(v); }
static const char* const wname[] = {"write_file", "write_with_lock", "lock_open_read+write_close_unlock", "write_fd"};
static const char* const rname[] = {"read_file", "read_with_lock", "lock_open_read", "read_fd"};

static TreeCfg cfg(Src& s) {
  TreeCfg c;
  c.maxnodes = s.chance(1, 12) ? 300 : 30;
  c.big = 4000000; c.bigdeep = 30000; c.bigwide = 10000; c.bigrate = 250; c.longrate = 20;
  if (s.chance(1, 30)) c.maxwide = 3000;
  if (s.chance(1, 30)) c.maxdeep = 1000;
  return c;
}
static void history(Src& s, Ctx& x) {
  UseLib u(lib(variants[s.weighted({4, 2, 1, 1, 1})]));
  std::string p = scratch() + "/file";
  unlink(p.c_str());
  TP cur;               // tree in the file; NULL: unknown
  size_t len = 0;
  size_t steps = 1 + s.size(9);
  bool nontriv = false;
  for (size_t i = 0; i < steps; i++) {
    // somebody else's contents
    if (s.chance(i == 0 ? 2 : 1, 4)) {
      switch (s.draw(4)) {
        case 0: unlink(p.c_str()); len = 0; x.note("file removed"); break;
        case 1: spew(p, ""); len = 0; x.note("file emptied"); break;
        case 2: { Rng r(s.seed32()); static const std::vector<size_t> edge = {1, 19, 20, 24, 28, 512, 1024, 4096, 8192, 65536, 1048576}; std::string g(s.chance(1, 3) ? s.pick(edge) : s.draw(5000), 0); for (auto& c : g) c = (char)r.next(); spew(p, g); len = g.size(); x.note("%zu unrelated bytes", len); break; }
        case 3: { TP o = gen_tree(s, cfg(s)); std::string b = encode_file(o.get(), !s.chance(1, 4)); if (s.chance(1, 2)) b += std::string(s.draw(300), 'x'); spew(p, b); len = b.size(); x.note("another writer's tree, %zu bytes", len); break; }
        default: { std::string b = slurp(p); if (b.size() > 2) b.resize(b.size() / 2); spew(p, b); len = b.size(); x.note("file cut to %zu bytes", len); break; }
      }
      cur.reset();
      if (len == 0 && s.chance(1, 2)) {  // nothing stored: nothing is added, nothing is lost
        TP dt = gen_tree(s, TreeCfg());
        Rng o2(s.seed32());
        H d(build(dt.get(), &o2));
        bool there = exists(p), locked = s.chance(1, 2);
        if (locked) { int rc = K->kvtree_read_with_lock(p.c_str(), d); REQUIRE(rc == KVTREE_SUCCESS, "read_with_lock of %s returns %d", there ? "an empty file" : "a new name", rc); }
        else if (s.chance(1, 2)) {
          int fd = -1, rc = K->kvtree_lock_open_read(p.c_str(), &fd, d);
          REQUIRE(rc == KVTREE_SUCCESS && fd >= 0, "lock_open_read of %s returns %d", there ? "an empty file" : "a new name", rc);
          close(fd);
        } else { int rc = K->kvtree_read_file(p.c_str(), d); REQUIRE((rc == KVTREE_SUCCESS) == there, "read_file of %s returns %d", there ? "an empty file" : "a name without file", rc); }
        require_equal(d, dt.get(), "a read of nothing into a tree");
        x.label("read before the first write");
      }
    }
    TP t = cur && s.chance(1, 2) ? related(s, cur.get(), TreeCfg(), 6) : gen_tree(s, cfg(s));
    Rng o(s.seed32());
    H h(build(t.get(), &o));
    int w = (int)s.weighted({3, 3, 3, 1});
    x.note("%s %s", wname[w], show(t.get(), 100).c_str());
    x.label(wname[w]);
    std::string want = encode_real_file(h);
    switch (w) {
      case 0: { int rc = K->kvtree_write_file(p.c_str(), h); REQUIRE(rc == KVTREE_SUCCESS, "write_file returns %d", rc); break; }
      case 1: { int rc = K->kvtree_write_with_lock(p.c_str(), h); REQUIRE(rc == KVTREE_SUCCESS, "write_with_lock returns %d", rc); break; }
      case 2: {
        int fd = -1;
        TP dt = gen_tree(s, TreeCfg());
        H d(build(dt.get()));
        int rc = K->kvtree_lock_open_read(p.c_str(), &fd, d);
        REQUIRE(rc == KVTREE_SUCCESS && fd >= 0, "lock_open_read returns %d, descriptor %d", rc, fd);
        if (cur) { merge(dt.get(), cur.get()); require_equal(d, dt.get(), "read by lock_open_read"); }
        rc = K->kvtree_write_close_unlock(p.c_str(), &fd, h);
        REQUIRE(rc == KVTREE_SUCCESS && fd == -1, "write_close_unlock returns %d, descriptor %d", rc, fd);
        break;
      }
      default: {
        int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        ssize_t r = K->kvtree_write_fd(p.c_str(), fd, h);
        close(fd);
        REQUIRE(r == (ssize_t)want.size(), "write_fd returns %zd for %zu bytes", r, want.size());
      }
    }
    if (len > want.size()) { x.label("longer contents before"); nontriv = true; }
    else if (len) { x.label("shorter contents before"); nontriv = true; }
    std::string got = slurp(p);
    REQUIRE(got.size() >= want.size() && !got.compare(0, want.size(), want), "after %s the file does not hold the tree", wname[w]);
    REQUIRE(got.size() == want.size(), "after %s the file holds %zu bytes, the tree needs %zu", wname[w], got.size(), want.size());
    len = got.size();
    cur = std::move(t);
    // read it
    size_t nr = 1 + s.draw(3);
    for (size_t k = 0; k < nr; k++) {
      int r = (int)s.draw(3);
      bool into = s.chance(1, 2);
      TP dt = !into ? TP(new T) : s.chance(1, 2) ? related(s, cur.get(), TreeCfg(), 6) : gen_tree(s, TreeCfg());
      Rng o2(s.seed32());
      H d(build(dt.get(), &o2));
      if (into && !dt->kids.empty()) { x.label("read into a filled tree"); nontriv = true; }
      switch (r) {
        case 0: { int rc = K->kvtree_read_file(p.c_str(), d); REQUIRE(rc == KVTREE_SUCCESS, "read_file returns %d", rc); break; }
        case 1: { int rc = K->kvtree_read_with_lock(p.c_str(), d); REQUIRE(rc == KVTREE_SUCCESS, "read_with_lock returns %d", rc); break; }
        case 2: {
          int fd = -1;
          int rc = K->kvtree_lock_open_read(p.c_str(), &fd, d);
          REQUIRE(rc == KVTREE_SUCCESS && fd >= 0, "lock_open_read returns %d", rc);
          close(fd);
          break;
        }
        default: {
          int fd = open(p.c_str(), O_RDONLY);
          ssize_t rc = K->kvtree_read_fd(p.c_str(), fd, d);
          close(fd);
          REQUIRE(rc == (ssize_t)want.size(), "read_fd returns %zd for %zu bytes", rc, want.size());
        }
      }
      merge(dt.get(), cur.get());
      require_equal(d, dt.get(), fmt("%s after %s", rname[r], wname[w]).c_str());
      x.label(rname[r]);
    }
    REQUIRE(slurp(p) == got, "reading changed the file");
  }
  unlink(p.c_str());
  if (nontriv) x.nontrivial();
}

// trees beyond the sizes of the histories, a few per run
static void large(Src& s, Ctx& x) {
  UseLib u(lib(variants[s.weighted({4, 1, 1, 1, 1})]));
  std::string p = scratch() + "/file", body;
  unlink(p.c_str());
  T t;
  T* at = s.chance(1, 2) ? &t : (t.put("other", new T), t.sub("above"));
  static const std::vector<size_t> counts = {20000, 24000, 32768}, lens = {4 << 20, 16 << 20, 40 << 20};
  Rng r(s.seed32());
  switch (s.weighted({2, 1, 1})) {
    case 0: {
      size_t n = s.pick(counts) - 2 + s.draw(600);
      x.note("%zu keys in one level", n);
      for (size_t i = 0; i < n; i++) at->put(str_of_int((int)i), r.below(16) ? nullptr : new T);
      break;
    }
    case 1: {
      size_t n = s.pick(lens) - 2 + s.draw(6);
      x.note("a key of %zu bytes", n);
      at->sub(std::string(n, 'k'));
      at->sub("beside");
      break;
    }
    default: {
      size_t n = 20000 + s.draw(20000);
      x.note("%zu levels", n);
      for (size_t i = 0; i < n; i++) { if (r.below(50) == 0) at->put("side", new T); at = at->sub("k"); }
    }
  }
  encode_body(&t, body, &r);
  H h(K->kvtree_new());
  K->kvtree_unpack(body.data(), h);
  bool lw = s.chance(1, 2), lr = s.chance(1, 2);
  int rc = lw ? K->kvtree_write_with_lock(p.c_str(), h) : K->kvtree_write_file(p.c_str(), h);
  REQUIRE(rc == KVTREE_SUCCESS, "%s returns %d", lw ? "write_with_lock" : "write_file", rc);
  H d(K->kvtree_new());
  rc = lr ? K->kvtree_read_with_lock(p.c_str(), d) : K->kvtree_read_file(p.c_str(), d);
  REQUIRE(rc == KVTREE_SUCCESS, "%s returns %d", lr ? "read_with_lock" : "read_file", rc);
  require_equal(d, &t, "tree read back");
  unlink(p.c_str());
  x.nontrivial();
}

// around 4 GiB, where sizes no longer fit 32 bits
static void beyond(Src& s, Ctx& x) {
  static const std::vector<uint64_t> at = {0xffffffff, 0x80000000, 1ull << 32};
  static const std::vector<int> calls = {1, 0, 2};
  uint64_t n = at[s.draw(thorough ? 2 : 0)] + s.draw(thorough ? 2 : 0);
  int call = calls[s.draw(thorough ? 2 : 0)];
  x.note("a file of %llu bytes, call %d", (unsigned long long)n, call);
  if (!run_big({"file", fmt("%llu", (unsigned long long)n), fmt("%d", call)})) throw Discard();
  x.label("around 4 GiB");
  x.nontrivial();
}

Prop pbt::prop = {
  "S03", "exploration",
  "case = history on one file of foreign contents (removed, emptied, random bytes, another tree, cut), writes by every call and reads by every call into empty "
  "or filled trees, under five builds; file bytes compared with the documented encoding, reads with the model merge; non-trivial: the file held something "
  "before a write, or a read merged into a filled tree; large: one tree of more than 20000 keys in a level, 4 MB in a key, or 20000 levels, per case; beyond: a key or file around 4 GiB, in a process of its own",
  {{"history", history, 12000, 240000}, {"large", large, 12, 200}, {"beyond", beyond, 1, 10}},
  {"the file system stores what is written to it"}, nullptr, 100, 200,
};
