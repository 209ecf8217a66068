// A damaged file is never read as a different tree.
#include <fcntl.h>
#include <unistd.h>
#include "ops.hpp"

enum Way { FILE_, LOCKED, FD, RMW, NWAY };
static const char* const rname[] = {"read_file", "read_with_lock", "read_fd", "lock_open_read"};
struct Ref { const T* orig; kvtree* h; std::string path; };

// what: description of the damage; same: the damage only added bytes after the end
static void check_read(const Ref& f, const std::string& bytes, Way w, const T* dest, const char* what, bool appended, bool onfile = false) {
  spew(f.path, bytes);
  H d(build(dest));
  std::string before = snapshot(d);
  bool ok;
  switch (w) {
    case FILE_: ok = K->kvtree_read_file(f.path.c_str(), d) == KVTREE_SUCCESS; break;
    case LOCKED: ok = K->kvtree_read_with_lock(f.path.c_str(), d) == KVTREE_SUCCESS; break;
    case FD: {
      int fd = open(f.path.c_str(), O_RDONLY);
      ssize_t r = K->kvtree_read_fd(f.path.c_str(), fd, d);
      close(fd);
      ok = r >= 0;
      break;
    }
    default: {
      int fd = -1;
      ok = K->kvtree_lock_open_read(f.path.c_str(), &fd, d) == KVTREE_SUCCESS;
      if (fd >= 0) close(fd);
      if (snapshot(d) == before) return;  // treated as empty
    }
  }
  if (!ok) {
    REQUIRE(snapshot(d) == before, "%s fails after %s but changed the destination", rname[w], what);
    REQUIRE(!bytes.empty(), "%s of a file of length zero fails", rname[w]);
    REQUIRE(!appended, "%s fails because of bytes after the end", rname[w]);
    return;
  }
  if (bytes.empty()) { REQUIRE(snapshot(d) == before, "a file of length zero yields something"); return; }
  TP m = clone(dest);
  merge(m.get(), f.orig);
  std::string df = diff(d, m.get());
  REQUIRE(df.empty(), "%s succeeds after %s with another tree: %s", rname[w], what, df.c_str());
}
// bytes of a file with the tree
static std::string written(Src& s, const T* t, std::string& p) {
  Rng o(s.seed32());
  H h(build(t, &o));
  p = scratch() + "/f";
  REQUIRE(K->kvtree_write_file(p.c_str(), h) == KVTREE_SUCCESS, "write fails");
  return slurp(p);
}
// every truncation, every bit, and every zeroed or lost run of a small file
static void sweep(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = 6; c.key.maxlen = 12;
  TP t = gen_tree(s, c);
  std::string p, b = written(s, t.get(), p);
  if (b.size() > 160) throw Discard();
  TP dest = s.chance(1, 2) ? TP(new T) : related(s, t.get(), c, 3);
  Way w = (Way)s.draw(NWAY - 1);
  x.note("%s of %s (%zu bytes) into %s", rname[w], show(t.get()).c_str(), b.size(), show(dest.get()).c_str());
  Ref f{t.get(), nullptr, p};
  uint64_t n = 0;
  for (size_t i = 0; i < b.size(); i++, n++) check_read(f, b.substr(0, i), w, dest.get(), fmt("a cut to %zu bytes", i).c_str(), false);
  for (size_t i = 0; i < 8 * b.size(); i++, n++) { std::string d = b; d[i / 8] ^= 1 << (i % 8); check_read(f, d, w, dest.get(), fmt("flipping bit %zu of byte %zu", i % 8, i / 8).c_str(), false); }
  static const unsigned char vals[] = {0, 1, 4, 20, 23, 24, 0x7f, 0x80, 0xff};
  for (size_t i = 0; i < b.size(); i++) for (unsigned char v : vals) { std::string d = b; d[i] = (char)v; check_read(f, d, w, dest.get(), fmt("setting byte %zu to %d", i, v).c_str(), false); n++; }
  size_t step = b.size() > 60 ? 3 : 1;
  for (size_t i = 0; i < b.size(); i++) for (size_t l = 1; i + l <= b.size(); l += l < 9 ? 1 : step) {
    std::string d = b;
    for (size_t q = i; q < i + l; q++) d[q] = 0;
    check_read(f, d, w, dest.get(), fmt("zeroing bytes %zu..%zu", i, i + l - 1).c_str(), false);
    d = b;
    d.erase(i, l);
    check_read(f, d, w, dest.get(), fmt("losing bytes %zu..%zu", i, i + l - 1).c_str(), false);
    n += 2;
  }
  x.label(rname[w]);
  x.label("damaged files read", n);
  if (!t->kids.empty()) x.nontrivial();
  unlink(p.c_str());
}
// the change of 32 adjacent bits at byte p that changes the checksum by exactly want, 0 if there is none
static uint32_t solve(const std::string& b, size_t p, uint32_t want) {
  std::string z(b.size() - 4 - p, '\0');  // checksums differ by a linear function of the change
  uint32_t zero = my_crc32(z.data(), z.size());
  uint32_t vec[32], comb[32];
  uint32_t sol = 0;
  int n = 0;
  for (int i = 0; i < 32; i++) {
    z[i / 8] = (char)(1 << (i % 8));
    uint32_t v = my_crc32(z.data(), z.size()) ^ zero, c = 1u << i;
    z[i / 8] = 0;
    for (int k = 0; k < n; k++) if ((v ^ vec[k]) < v) { v ^= vec[k]; c ^= comb[k]; }
    if (v) { vec[n] = v; comb[n++] = c; for (int k = n - 1; k > 0 && vec[k] > vec[k - 1]; k--) { std::swap(vec[k], vec[k - 1]); std::swap(comb[k], comb[k - 1]); } }
  }
  for (int k = 0; k < n; k++) if ((want ^ vec[k]) < want) { want ^= vec[k]; sol ^= comb[k]; }
  return want ? 0 : sol;
}
// a burst that changes the checksum as little as possible: in one bit, one byte, one half
static void near(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = s.chance(1, 8) ? 100 : 8;
  c.big = 1000000; c.bigrate = 300; c.longrate = 20;
  TP t = gen_tree(s, c);
  std::string k = gen_key(s);
  while (k.size() < 6) k += 'q';
  t->put(k, new T);
  std::string p, b = written(s, t.get(), p);
  TP dest = s.chance(1, 2) ? TP(new T) : related(s, t.get(), TreeCfg(), 3);
  Ref f{t.get(), nullptr, p};
  x.note("%s (%zu bytes)", show(t.get(), 150).c_str(), b.size());
  size_t at = b.find(k, 24), done = 0;
  for (int q = 0; q < 12; q++) {
    size_t pos = s.chance(1, 6) ? 20 + s.draw(b.size() - 28) : at + s.draw(k.size() - 4);
    uint32_t want = 0;
    switch (s.draw(2)) {
      case 0: want = 1u << s.draw(31); break;
      case 1: want = (uint32_t)(1 + s.draw(254)) << (8 * s.draw(3)); break;
      default: want = (uint32_t)(1 + s.draw(65534)) << (16 * s.draw(1)); break;
    }
    uint32_t d = solve(b, pos, want);
    std::string m = b;
    for (int i = 0; i < 4; i++) m[pos + i] ^= (char)(d >> (8 * i));
    uint32_t stored = 0;
    for (int i = 0; i < 4; i++) stored = stored << 8 | (unsigned char)b[b.size() - 4 + i];
    if (!d || (my_crc32(m.data(), m.size() - 4) ^ stored) != want) FAILK("oracle", "wrong burst");
    if (memchr(&m[pos], 0, 4) && pos >= at) continue;
    Way w = (Way)s.draw(NWAY - 1);
    if (q < 3) x.note("%s after a change of bytes %zu..%zu, checksum off by %08x", rname[w], pos, pos + 3, want);
    check_read(f, m, w, dest.get(), fmt("changing bytes %zu..%zu (checksum off by %08x)", pos, pos + 3, want).c_str(), false);
    done++;
  }
  x.label("damaged files read", done);
  if (done) x.nontrivial();
  unlink(p.c_str());
}
// one damage of each kind on larger files
static void damages(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = s.chance(1, 8) ? 300 : 40;
  if (s.chance(1, 20)) c.maxwide = 2000;
  TP t = gen_tree(s, c);
  std::string p, b = written(s, t.get(), p);
  label_tree(x, t.get());
  TreeCfg dc;
  dc.maxnodes = 6;
  TP dest = s.chance(1, 2) ? TP(new T) : related(s, t.get(), dc, 3);
  Ref f{t.get(), nullptr, p};
  x.note("%s (%zu bytes)", show(t.get(), 150).c_str(), b.size());
  size_t n = 6;
  for (size_t k = 0; k < n; k++) {
    Way w = (Way)s.draw(NWAY - 1);
    std::string d = b;
    std::string what;
    bool app = false;
    // positions: anywhere, or in the header and the first count, or at the end
    auto pos = [&]() -> size_t {
      switch (s.draw(3)) { case 0: return s.draw(std::min<size_t>(b.size() - 1, 27)); case 1: return b.size() - 1 - s.draw(std::min<size_t>(b.size() - 1, 11)); default: return s.draw(b.size() - 1); }
    };
    switch (s.weighted({2, 2, 2, 2, 2, 2, 3})) {
      case 6: {  // some places at once, often with a special value in the checksum field
        Rng r(s.seed32());
        size_t l = 1 + s.draw(4);
        for (size_t q = 0; q < l; q++) {
          size_t i = pos();
          if (s.chance(2, 3)) for (size_t e = 0; e < 50 && !isalnum((unsigned char)d[i]); e++) i = r.below(b.size());
          d[i] = (char)(s.chance(1, 2) ? 'a' + r.below(26) : r.next());
        }
        size_t e = d.size() - 4;
        switch (s.draw(4)) {
          case 0: memset(&d[e], 0, 4); break;
          case 1: memset(&d[e], 255, 4); break;
          case 2: d.resize(e); if (s.chance(1, 2)) d.insert(24 <= e ? 24 : e, "\0\0\0\0", 4); break;
          default: break;
        }
        what = fmt("changes at %zu places", l);
        break;
      }
      case 0: { size_t i = pos(); unsigned char v = s.draw(255); if ((unsigned char)d[i] == v) v++; d[i] = (char)v; what = fmt("setting byte %zu to %d", i, v); break; }
      case 1: {  // up to 24 adjacent bits
        size_t i = pos() * 8 + s.draw(7), l = 1 + s.draw(23);
        Rng r(s.seed32());
        for (size_t q = 0; q < l; q++) if (i + q < 8 * b.size() && (q == 0 || q == l - 1 || r.below(2))) d[(i + q) / 8] ^= 0x80 >> ((i + q) % 8);
        what = fmt("changing up to %zu bits from bit %zu on", l, i);
        break;
      }
      case 2: { size_t i = pos(); d.resize(i); what = fmt("a cut to %zu bytes", i); break; }
      case 3: { size_t i = pos(), l = 1 + s.draw(b.size() - i - 1 ? b.size() - i - 1 : 0); if (s.chance(1, 2)) l = std::min<size_t>(l, 8); for (size_t q = i; q < i + l && q < b.size(); q++) d[q] = 0; what = fmt("zeroing %zu bytes from %zu on", l, i); break; }
      case 4: { size_t i = pos(), l = 1 + s.draw(b.size() - i - 1 ? b.size() - i - 1 : 0); if (s.chance(1, 2)) l = std::min<size_t>(l, 8); d.erase(i, l); what = fmt("losing %zu bytes from %zu on", l, i); break; }
      default: { Rng r(s.seed32()); size_t l = 1 + s.draw(5000); for (size_t q = 0; q < l; q++) d += (char)r.next(); app = true; what = fmt("appending %zu bytes", l); break; }
    }
    x.note("%s after %s", rname[w], what.c_str());
    x.label(app ? "bytes appended" : d == b ? "unchanged" : "damaged");
    check_read(f, d, w, dest.get(), what.c_str(), app);
  }
  if (!t->kids.empty()) x.nontrivial();
  unlink(p.c_str());
}

Prop pbt::prop = {
  "S04", "fault_enumeration",
  "near case = bursts of 32 bits solved to change the checksum in one bit, byte or half; sweep case = small file, read after every truncation, every flipped bit, every byte set to nine values, every zeroed and every lost run; random case = larger "
  "file read after six random damages, some at several places with a special checksum field; into empty or filled trees by each read call; oracle: failure with an untouched destination, or the original tree; "
  "non-trivial: the tree has keys",
  {{"sweep", sweep, 450, 4000}, {"random", damages, 54000, 720000}, {"near", near, 18000, 240000}},
  {"single damage as listed (an adversary who also fixes the checksum is property S05)"},
};
