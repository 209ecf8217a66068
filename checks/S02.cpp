// Packed trees and files follow the documented binary format exactly.
#include <unistd.h>
#include <fcntl.h>
#include <zlib.h>
#include "ops.hpp"
#include "beyond.hpp"

static const char* const variants[] = {"static", "flock", "fcntl", "none", "noswap", "mpi"};
static const KV* lib(const char* v) { return !strcmp(v, "static") ? kv_static() : kv_load(v); }
static TreeCfg cfg(Src& s) {
  TreeCfg c;
  c.maxnodes = s.chance(1, 12) ? 300 : 40;
  c.big = 4000000; c.bigdeep = 30000; c.bigwide = 10000; c.bigrate = 150;
  if (s.chance(1, 20)) c.maxwide = 3000;
  if (s.chance(1, 20)) c.maxdeep = 2000;
  return c;
}
enum Way { PACK, PERSIST, FD, FILE_, LOCKED, RMW, NWAY };
static const char* const wname[] = {"pack", "persist", "write_fd", "write_file", "write_with_lock", "lock_open_read+write_close_unlock"};
static std::string emit(Way w, kvtree* h, const std::string& p, size_t* announced) {
  std::string out;
  *announced = (size_t)-1;
  switch (w) {
    case PACK: {
      size_t n = K->kvtree_pack_size(h);
      out.resize(n + 1);
      size_t r = K->kvtree_pack(&out[0], h);
      REQUIRE(r == n, "pack wrote %zu, announced %zu", r, n);
      out.resize(n);
      break;
    }
    case PERSIST: {
      void* b = nullptr;
      size_t n = 0;
      int rc = K->kvtree_write_persist(&b, &n, h);
      REQUIRE(rc == KVTREE_SUCCESS, "persist returns %d", rc);
      out.assign((char*)b, n);
      free(b);
      break;
    }
    case FD: {
      int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      ssize_t r = K->kvtree_write_fd(p.c_str(), fd, h);
      close(fd);
      REQUIRE(r > 0, "write_fd returns %zd", r);
      out = slurp(p);
      *announced = r;
      break;
    }
    case FILE_: { int rc = K->kvtree_write_file(p.c_str(), h); REQUIRE(rc == KVTREE_SUCCESS, "write_file returns %d", rc); out = slurp(p); break; }
    case LOCKED: { int rc = K->kvtree_write_with_lock(p.c_str(), h); REQUIRE(rc == KVTREE_SUCCESS, "write_with_lock returns %d", rc); out = slurp(p); break; }
    default: {
      int fd = -1;
      H d(K->kvtree_new());
      int rc = K->kvtree_lock_open_read(p.c_str(), &fd, d);
      REQUIRE(rc == KVTREE_SUCCESS, "lock_open_read returns %d", rc);
      rc = K->kvtree_write_close_unlock(p.c_str(), &fd, h);
      REQUIRE(rc == KVTREE_SUCCESS, "write_close_unlock returns %d", rc);
      out = slurp(p);
    }
  }
  unlink(p.c_str());
  return out;
}
// what the library writes, in every build, by every call
static void written(Src& s, Ctx& x) {
  TP t = gen_tree(s, cfg(s));
  label_tree(x, t.get());
  x.note("tree %s", show(t.get()).c_str());
  Way w = (Way)s.draw(NWAY - 1);
  uint64_t seed = s.seed32();
  std::string p = scratch() + "/f", first;
  x.label(wname[w]);
  for (const char* v : variants) {
    UseLib u(lib(v));
    Rng o(seed);
    H h(build(t.get(), &o));
    size_t ann;
    std::string got = emit(w, h, p, &ann), want;
    // elements appear in iteration order
    if (w == PACK) encode_real(h, want); else want = encode_real_file(h);
    if (got != want) {
      size_t i = 0;
      while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
      FAILK("bytes", "%s (build %s): byte %zu differs from the documented format (%zu bytes, expected %zu)", wname[w], v, i, got.size(), want.size());
    }
    if (ann != (size_t)-1) REQUIRE(ann == want.size(), "write_fd returns %zu for %zu bytes", ann, want.size());
    if (first.empty()) first = got;
    REQUIRE(got == first, "%s: build %s writes other bytes", wname[w], v);
  }
  if (w != PACK) {  // an unrelated CRC implementation agrees
    uint32_t c = 0;
    for (int i = 0; i < 4; i++) c = c << 8 | (unsigned char)first[first.size() - 4 + i];
    REQUIRE(crc32(0, (const Bytef*)first.data(), first.size() - 4) == c, "trailing CRC32 wrong");
  }
  if (!t->kids.empty()) x.nontrivial();
}
// what an independent writer writes
static void foreign(Src& s, Ctx& x) {
  TP t = gen_tree(s, cfg(s));
  label_tree(x, t.get());
  x.note("tree %s", show(t.get()).c_str());
  bool crc = !s.chance(1, 3);
  Rng o(s.seed32());
  std::string f = encode_file(t.get(), crc, &o);
  // without the CRC flag the trailing word is absent or present (the size covers it either way)
  x.label(crc ? "with CRC" : "without CRC");
  std::string p = scratch() + "/f";
  spew(p, f);
  std::string tail;
  if (s.chance(1, 4)) { Rng q(s.seed32()); tail.resize(1 + s.draw(40)); for (auto& ch : tail) ch = (char)q.next(); spew(p, f + tail); x.label("bytes after the end"); }
  for (const char* v : variants) {
    UseLib u(lib(v));
    int way = (int)s.draw(3);
    H h(K->kvtree_new());
    if (way == 0) { int rc = K->kvtree_read_file(p.c_str(), h); REQUIRE(rc == KVTREE_SUCCESS, "read_file returns %d (build %s)", rc, v); }
    else if (way == 1) { int rc = K->kvtree_read_with_lock(p.c_str(), h); REQUIRE(rc == KVTREE_SUCCESS, "read_with_lock returns %d (build %s)", rc, v); }
    else if (way == 2) {
      int fd = open(p.c_str(), O_RDONLY);
      ssize_t r = K->kvtree_read_fd(p.c_str(), fd, h);
      off_t at = lseek(fd, 0, SEEK_CUR);
      close(fd);
      REQUIRE(r == (ssize_t)f.size(), "read_fd returns %zd for %zu bytes (build %s)", r, f.size(), v);
      REQUIRE(at == (off_t)f.size(), "read_fd leaves the file at %ld of %zu (build %s)", (long)at, f.size(), v);
    } else {
      int fd = -1;
      int rc = K->kvtree_lock_open_read(p.c_str(), &fd, h);
      REQUIRE(rc == KVTREE_SUCCESS && fd >= 0, "lock_open_read returns %d", rc);
      rc = K->kvtree_write_close_unlock(p.c_str(), &fd, h);
      REQUIRE(rc == KVTREE_SUCCESS, "write_close_unlock returns %d", rc);
      REQUIRE(slurp(p) == encode_real_file(h), "the file after the update is not the documented format");
      spew(p, f + tail);
    }
    require_equal(h, t.get(), fmt("read by build %s", v).c_str());
  }
  {
    std::string b;
    Rng o2(s.seed32());
    encode_body(t.get(), b, &o2);
    for (const char* v : variants) {
      UseLib u(lib(v));
      H h(K->kvtree_new());
      size_t n = K->kvtree_unpack(b.data(), h);
      REQUIRE(n == b.size(), "unpack consumed %zu of %zu (build %s)", n, b.size(), v);
      require_equal(h, t.get(), "unpacked from independent bytes");
    }
  }
  unlink(p.c_str());
  if (!t->kids.empty()) x.nontrivial();
}

// beyond 4 GiB, where sizes no longer fit 32 bits
static void beyond(Src& s, Ctx& x) {
  static const std::vector<uint64_t> at = {1ull << 32, (1ull << 32) - 1, 5ull << 30};
  uint64_t n = s.pick(at) + s.draw(2000);
  x.note("a key of %llu bytes", (unsigned long long)n);
  if (!run_big({"persist", fmt("%llu", (unsigned long long)n)})) throw Discard();
  x.label("beyond 4 GiB");
  x.nontrivial();
}

Prop pbt::prop = {
  "S02", "exploration",
  "case = tree written by one of the writing calls in six builds (lock type, byte swap, MPI) and compared byte for byte with an independent encoder, or tree "
  "encoded by that encoder (any element order, with or without CRC, with or without following bytes) and read by every build; non-trivial: at least one key; beyond: a key or file around 4 GiB, in a process of its own",
  {{"written", written, 24000, 480000}, {"foreign", foreign, 20000, 400000}, {"beyond", beyond, 1, 6}},
  {"little-endian 64-bit host", "the encoder implements doc/rst of the repository"},
};
