// Reading arbitrary bytes as a file is always safe.
#include <fcntl.h>
#include <unistd.h>
#include "ops.hpp"

static void be(std::string& o, uint64_t v, int n) { while (n--) o += (char)(v >> (8 * n)); }
// like the codec's decoder, but also tells about repeated keys and lets a body end before the space does
static size_t body(const char* p, size_t n, T* out, bool* dup) {
  if (n < 4) return 0;
  uint64_t cnt = 0;
  for (int i = 0; i < 4; i++) cnt = cnt << 8 | (unsigned char)p[i];
  size_t pos = 4;
  for (uint64_t i = 0; i < cnt; i++) {
    const char* z = (const char*)memchr(p + pos, 0, n - pos);
    if (!z) return 0;
    std::string k(p + pos, z - (p + pos));
    pos += k.size() + 1;
    if (out->has(k)) *dup = true;
    size_t c = body(p + pos, n - pos, out->sub(k), dup);
    if (!c) return 0;
    pos += c;
  }
  return pos;
}
enum Verdict { EMPTY, VALID, LOOSE, INVALID };
static Verdict judge(const std::string& b, T* out, bool* dup, size_t* size) {
  *dup = false;
  *size = 0;
  if (b.empty()) return EMPTY;
  T t;
  int r = decode_file(b, &t, size);
  if (r < 0) {
    // a body that ends early, protected by its checksum
    uint64_t fs = 0;
    if (b.size() < 28) return INVALID;
    for (int i = 8; i < 16; i++) fs = fs << 8 | (unsigned char)b[i];
    if (fs < 28 || fs > b.size() || !(b[19] & 1)) return INVALID;
    std::string c = b.substr(0, fs);
    if (memcmp(c.data(), "\x95\x1f\xc3\xf5\0\1\0\1", 8)) return INVALID;
    std::string crc;
    be(crc, my_crc32(c.data(), fs - 4), 4);
    if (crc != c.substr(fs - 4)) return INVALID;
    T tmp;
    if (!body(c.data() + 20, fs - 24, &tmp, dup)) return INVALID;
    merge(out, &tmp);
    *size = fs;
    return LOOSE;
  }
  T tmp;
  size_t end = *size - ((b[19] & 1) ? 4 : 0);
  body(b.data() + 20, end - 20, &tmp, dup);
  merge(out, &tmp);
  return VALID;
}
static const char* const rname[] = {"read_file", "read_with_lock", "read_fd", "lock_open_read"};
static void try_read(Src& s, Ctx& x, const std::string& b) {
  std::string p = scratch() + "/f";
  T want;
  bool dup;
  size_t size;
  Verdict v = judge(b, &want, &dup, &size);
  x.label(v == EMPTY ? "empty file" : v == VALID ? dup ? "readable, repeated keys" : "readable" : v == LOOSE ? "body ends early" : "not readable");
  int w = (int)s.draw(3);
  TreeCfg dc;
  dc.maxnodes = 5;
  TP dest = s.chance(1, 2) ? TP(new T) : s.chance(1, 2) && nodes(&want) < 500 ? related(s, &want, dc, 3) : gen_tree(s, dc);
  x.note("%s of %zu bytes %s", rname[w], b.size(), quote(b, 200).c_str());
  spew(p, b);
  H d(build(dest.get()));
  std::string before = snapshot(d);
  bool ok;
  ssize_t r = -2;
  switch (w) {
    case 0: ok = K->kvtree_read_file(p.c_str(), d) == KVTREE_SUCCESS; break;
    case 1: ok = K->kvtree_read_with_lock(p.c_str(), d) == KVTREE_SUCCESS; break;
    case 2: {
      int fd = open(p.c_str(), O_RDONLY);
      r = K->kvtree_read_fd(p.c_str(), fd, d);
      close(fd);
      ok = r >= 0;
      break;
    }
    default: {
      int fd = -1;
      ok = K->kvtree_lock_open_read(p.c_str(), &fd, d) == KVTREE_SUCCESS;
      if (fd >= 0) close(fd);
    }
  }
  REQUIRE(slurp(p) == b, "reading changed the file");
  unlink(p.c_str());
  bool same = snapshot(d) == before;
  if (!ok) {
    REQUIRE(same, "%s fails but changed the destination", rname[w]);
    REQUIRE(v != EMPTY && !(v == VALID && !dup), "%s fails for a readable file", rname[w]);
    return;
  }
  if (v == EMPTY) { REQUIRE(same, "an empty file yields something"); return; }
  if (w == 3 && same) return;  // may treat anything as empty
  REQUIRE(v != INVALID, "%s succeeds for bytes that hold no tree", rname[w]);
  if (r != -2) REQUIRE(r == (ssize_t)size, "read_fd returns %zd, the tree has %zu bytes", r, size);
  TP got = from_real(d);
  if (dup) return;
  merge(dest.get(), &want);
  require_equal(d, dest.get(), rname[w]);
}
// a body that is almost right: emitted with faults at random places
struct Faults { Src& s; unsigned n; };
static void emit(Src& s, const T* t, std::string& o, unsigned& faults) {
  uint32_t cnt = t ? t->kids.size() : 0;
  if (faults && s.chance(1, 6)) {
    faults--;
    switch (s.draw(4)) {
      case 0: cnt++; break;
      case 1: cnt--; break;
      case 2: cnt = (uint32_t)s.draw(0xffffffffu); break;
      case 3: cnt |= 0x80000000u; break;
      default: cnt = 0; break;
    }
  }
  be(o, cnt, 4);
  if (t) for (auto& k : t->kids) {
    o += k.first;
    if (faults && s.chance(1, 8)) faults--; else o += '\0';
    emit(s, k.second, o, faults);
    if (faults && s.chance(1, 12)) { faults--; o += k.first; o += '\0'; emit(s, nullptr, o, faults); }
  }
}
// a field that is off: often only a little
static uint32_t off(Src& s, uint32_t v, int bits) {
  uint32_t mask = bits == 32 ? 0xffffffffu : (1u << bits) - 1;
  switch (s.draw(4)) {
    case 0: return v - 1 & mask;
    case 1: return v + 1 & mask;
    case 2: return (v ^ 1u << s.draw(bits - 1)) & mask;
    case 3: return (v << (bits / 2) | v >> (bits / 2)) & mask;
    default: return (uint32_t)s.draw(mask);
  }
}
static std::string header(Src& s, const std::string& b) {
  bool crc = s.chance(1, 2);
  uint64_t fs = 20 + b.size() + (crc ? 4 : 0);
  uint32_t flags = crc;
  uint32_t magic = 0x951fc3f5;
  uint16_t ty = 1, ver = 1;
  switch (s.weighted({10, 6, 1, 1, 1, 1})) {
    case 1: {
      switch (s.draw(6)) {
        case 0: fs = s.draw(40); break;
        case 1: fs -= 1 + s.draw(8); break;
        case 2: fs += 1 + s.draw(8); break;
        case 3: fs = (uint64_t)1 << s.draw(63); break;
        case 4: fs |= (uint64_t)1 << (24 + s.draw(39)); break;
        case 5: fs = ~(uint64_t)0 - s.draw(40); break;
        default: fs = 20 + s.draw(b.size()); break;
      }
      break;
    }
    case 2: flags = off(s, flags, 32); break;
    case 3: magic = s.chance(1, 3) ? 0xf5c31f95 : off(s, magic, 32); break;
    case 4: ty = (uint16_t)off(s, ty, 16); break;
    case 5: ver = (uint16_t)off(s, ver, 16); break;
  }
  std::string o;
  be(o, magic, 4); be(o, ty, 2); be(o, ver, 2); be(o, fs, 8); be(o, flags, 4);
  return o;
}
static void structured(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = s.chance(1, 10) ? 200 : 15;
  c.big = 300000; c.bigrate = 400; c.longrate = 20;
  c.key.maxlen = 3000;
  TP t = gen_tree(s, c);
  unsigned faults = (unsigned)s.draw(3);
  std::string b;
  emit(s, t.get(), b, faults);
  // raw changes of the body
  size_t n = s.draw(2);
  for (size_t i = 0; i < n && !b.empty(); i++) {
    size_t at = s.draw(b.size() - 1);
    switch (s.draw(5)) {
      case 0: b[at] = (char)s.draw(255); break;
      case 1: b.resize(at); break;
      case 2: b.erase(at, 1 + s.draw(7)); break;
      case 3: b.insert(at, std::string(1 + s.draw(7), (char)s.draw(255))); break;
      case 4: b += std::string(1 + s.draw(30), (char)s.draw(255)); break;
      default: b += b.substr(at); break;
    }
  }
  std::string f = header(s, b) + b;
  uint64_t fs = 0;
  for (int i = 8; i < 16; i++) fs = fs << 8 | (unsigned char)f[i];
  if (f[19] & 1) {
    // checksum over what the header announces, as far as possible
    size_t upto = fs >= 4 && fs - 4 <= f.size() ? fs - 4 : f.size();
    std::string head = f.substr(0, upto), crc;
    be(crc, my_crc32(head.data(), head.size()), 4);
    if (!s.chance(1, 8)) f = head + crc; else f += crc;
  }
  if (s.chance(1, 6)) f += std::string(s.draw(60), '\0');
  if (s.chance(1, 8)) f.resize(s.draw(f.size()));
  try_read(s, x, f);
  x.nontrivial();
}
// announcements that are far from what follows
static void extreme(Src& s, Ctx& x) {
  std::string b;
  switch (s.draw(4)) {
    case 0: {  // deep nesting, cut somewhere
      size_t d = 1 + s.draw(thorough ? 100000 : 20000);
      for (size_t i = 0; i < d; i++) { be(b, 1, 4); if (s.chance(1, 50)) b += 'x'; b += '\0'; if (i > 200) { std::string u; be(u, 1, 4); u += '\0'; while (i++ < d) b += u; } }
      if (!s.chance(1, 4)) be(b, 0, 4);
      break;
    }
    case 1: {  // many siblings announced
      size_t w = s.draw(3000), have = s.chance(1, 2) ? w : s.draw(w);
      be(b, s.chance(1, 3) ? 0xffffffffu : (uint32_t)w, 4);
      for (size_t i = 0; i < have; i++) { b += std::to_string(i); b += '\0'; be(b, 0, 4); }
      break;
    }
    case 2: {  // the same key again and again
      size_t w = s.draw(3000);
      be(b, (uint32_t)w, 4);
      for (size_t i = 0; i < w; i++) { b += "k"; b += '\0'; be(b, i % 3 ? 0 : 1, 4); if (i % 3 == 0) { b += '\0'; be(b, 0, 4); } }
      break;
    }
    case 3: {  // one key without end
      be(b, 1, 4);
      b += std::string(s.draw(100000), 'q');
      if (s.chance(1, 2)) b += '\0';
      break;
    }
    default: {
      Rng r(s.seed32());
      size_t n = s.draw(2000);
      unsigned m = 1 + s.draw(255);
      for (size_t i = 0; i < n; i++) b += (char)(r.below(3) ? 0 : r.below(m));
    }
  }
  std::string f = frame(b, s.chance(1, 2));
  try_read(s, x, f);
  x.nontrivial();
}
static void noise(Src& s, Ctx& x) {
  Rng r(s.seed32());
  size_t n = s.size(5000);
  std::string f(n, 0);
  unsigned m = 1 + (unsigned)s.draw(255);
  for (auto& c : f) c = (char)r.below(m);
  if (n > 8 && s.chance(1, 2)) memcpy(&f[0], "\x95\x1f\xc3\xf5\0\1\0\1", 8);
  if (n > 16 && s.chance(1, 2)) memset(&f[8], 0, 6);
  try_read(s, x, f);
  if (n) x.nontrivial();
}

Prop pbt::prop = {
  "S05", "exploration",
  "case = bytes of a nearly correct file (faults in counts, terminators, repeated keys, sizes, flags, magic; checksum made right), extreme announcements "
  "(nesting, width, keys without end), or noise, read by one of the read calls into an empty or filled tree; oracle: no memory error, destination untouched on "
  "failure, an independent decoder's tree on success, readable files are read; non-trivial: every case but an empty noise file",
  {{"structured", structured, 270000, 1800000}, {"extreme", extreme, 6750, 45000}, {"noise", noise, 45000, 300000}},
  {"stack of 1 GiB for the nesting", "repeated keys in one level: only safety is asserted"},
};
