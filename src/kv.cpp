#include "kv.hpp"
#include <algorithm>
#include <climits>
#include <dlfcn.h>
#include <fcntl.h>
#include <cmath>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;

static KV make_static() {
  KV k;
#define X(f) k.f = &::f;
  KV_SERIAL(X)
#undef X
#ifdef KV_WITH_MPI
#define X(f) k.f = &::f;
#else
#define X(f) k.f = nullptr;
#endif
  KV_MPI(X)
#undef X
  return k;
}
static const KV g_static = make_static();
thread_local const KV* K = &g_static;
const KV* kv_static() { return &g_static; }

const KV* kv_load(const std::string& variant, int copy) {
  static std::map<std::string, const KV*> cache;
  std::string id = variant + "." + std::to_string(copy);
  auto it = cache.find(id);
  if (it != cache.end()) return it->second;
  std::string path = builddir() + "/libkv_" + variant + ".so";
  std::string use = path;
  if (copy > 0) {
    use = scratch() + "/lib" + id + ".so";
    std::string bytes = slurp(path);
    spew(use, bytes);
  }
  void* h = dlopen(use.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(2); }
  if (copy > 0) unlink(use.c_str());
  KV* k = new KV;
#define X(f) k->f = (decltype(&::f))dlsym(h, #f); if (!k->f) { fprintf(stderr, "no symbol %s in %s\n", #f, use.c_str()); _exit(2); }
  KV_SERIAL(X)
#undef X
#define X(f) k->f = (decltype(&::f))dlsym(h, #f);
  KV_MPI(X)
#undef X
  cache[id] = k;
  return k;
}

// ---------------------------------------------------------------- model
TP clone(const T* t) {
  if (!t) return nullptr;
  TP r(new T);
  for (auto& k : t->kids) r->kids.emplace_hint(r->kids.end(), k.first, clone(k.second).release());
  return r;
}
void merge(T* a, const T* b) {
  if (!b) return;
  for (auto& k : b->kids) merge(a->sub(k.first), k.second);
}
bool equal(const T* a, const T* b) {
  size_t na = a ? a->kids.size() : 0, nb = b ? b->kids.size() : 0;
  if (na != nb) return false;
  if (!na) return true;
  auto i = a->kids.begin();
  auto j = b->kids.begin();
  for (; i != a->kids.end(); ++i, ++j)
    if (i->first != j->first || !equal(i->second, j->second)) return false;
  return true;
}
bool equal_exact(const T* a, const T* b) {
  if (!a || !b) return a == b;
  if (a->kids.size() != b->kids.size()) return false;
  auto i = a->kids.begin();
  auto j = b->kids.begin();
  for (; i != a->kids.end(); ++i, ++j)
    if (i->first != j->first || !equal_exact(i->second, j->second)) return false;
  return true;
}
size_t nodes(const T* t) {
  size_t n = 0;
  if (t) for (auto& k : t->kids) n += 1 + nodes(k.second);
  return n;
}
size_t depth(const T* t) {
  size_t d = 0;
  if (t) for (auto& k : t->kids) d = std::max(d, 1 + depth(k.second));
  return d;
}
size_t width(const T* t) {
  size_t d = 0;
  if (t) { d = t->kids.size(); for (auto& k : t->kids) d = std::max(d, width(k.second)); }
  return d;
}
size_t packed_size(const T* t) {
  size_t n = 4;
  if (t) for (auto& k : t->kids) n += k.first.size() + 1 + packed_size(k.second);
  return n;
}
static void show_to(const T* t, std::string& o, size_t max) {
  if (!t) { o += "NULL"; return; }
  o += "{";
  bool first = true;
  for (auto& k : t->kids) {
    if (o.size() > max) { o += fmt("...%zu keys", t->kids.size()); break; }
    if (!first) o += ", ";
    first = false;
    o += quote(k.first, 24);
    if (!k.second || !k.second->kids.empty()) { o += ":"; show_to(k.second, o, max); }
  }
  o += "}";
}
std::string show(const T* t, size_t max) {
  std::string o;
  show_to(t, o, max);
  if (o.size() > max + 200) { o.resize(max); o += fmt("...(%zu nodes, depth %zu)", nodes(t), depth(t)); }
  return o;
}

kvtree* build(const T* t, Rng* order) {
  if (!t) return nullptr;
  kvtree* h = K->kvtree_new();
  std::vector<std::pair<const std::string*, const T*>> v;
  for (auto& k : t->kids) v.push_back({&k.first, k.second});
  if (order) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[order->below(i)]);
  if (v.size() > 300) {
    // wide level: setting keys one by one is quadratic; unpack is not
    std::string flat;
    uint32_t n = v.size();
    flat += (char)(n >> 24); flat += (char)(n >> 16); flat += (char)(n >> 8); flat += (char)n;
    for (auto& p : v) { flat += *p.first; flat += '\0'; flat += std::string(4, '\0'); }
    K->kvtree_unpack(flat.data(), h);
    std::map<std::string, kvtree_elem*> idx;
    for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) idx[K->kvtree_elem_key(e)] = e;
    for (auto& p : v) {
      if (!p.second || !p.second->kids.empty()) {
        auto it = idx.find(*p.first);
        if (it == idx.end()) FAILK("build", "unpack lost a key while building a tree");
        K->kvtree_delete(&it->second->hash);
        it->second->hash = build(p.second, order);
      }
    }
    return h;
  }
  for (auto& p : v) K->kvtree_set(h, p.first->c_str(), build(p.second, order));
  return h;
}
TP from_real(const kvtree* h) {
  if (!h) return nullptr;
  TP t(new T);
  for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) {
    const char* k = K->kvtree_elem_key(e);
    REQUIRE(k, "an element has a NULL key");
    REQUIRE(!t->has(k), "key %s occurs twice in one level", quote(k).c_str());
    t->kids[k] = from_real(K->kvtree_elem_hash(e)).release();
  }
  return t;
}
std::string diff(const kvtree* h, const T* t, bool nie) {
  if (!h || !t) {
    if (!h && !t) return "";
    if (!nie) return h ? "subtree present, expected NULL" : "subtree is NULL, expected one";
    if (!h) return t->kids.empty() ? "" : fmt("subtree is NULL, expected %zu keys", t->kids.size());
    return K->kvtree_elem_first(h) ? "subtree has keys, expected none" : "";
  }
  size_t n = 0;
  std::vector<const T*> seen;
  const bool small = t->kids.size() < 64;
  std::map<std::string, int> dup;
  for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) {
    const char* k = K->kvtree_elem_key(e);
    if (!k) return "element with NULL key";
    auto it = t->kids.find(k);
    if (it == t->kids.end()) return "unexpected key " + quote(k);
    if (dup[k]++) return "key " + quote(k) + " occurs twice";
    if (++n > t->kids.size()) return fmt("more than %zu keys", t->kids.size());
    std::string d = diff(K->kvtree_elem_hash(e), it->second, nie);
    if (!d.empty()) return (d.size() < 400 ? quote(k, 30) + " > " : std::string()) + d;
  }
  (void)small;
  if (n != t->kids.size()) {
    for (auto& k : t->kids) if (!dup.count(k.first)) return fmt("key %s missing (%zu of %zu keys)", quote(k.first).c_str(), n, t->kids.size());
  }
  return "";
}
void require_equal(const kvtree* h, const T* t, const char* what) {
  std::string d = diff(h, t);
  if (!d.empty()) fail(what, "%s: %s", what, d.c_str());
}
static void snap_to(const kvtree* h, std::string& o) {
  if (!h) { o += 'N'; return; }
  o += '(';
  for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) {
    const char* k = K->kvtree_elem_key(e);
    o.append(k ? k : "<null>");
    o += '\0';
    snap_to(K->kvtree_elem_hash(e), o);
  }
  o += ')';
}
std::string snapshot(const kvtree* h) {
  std::string o;
  snap_to(h, o);
  return o;
}

// ---------------------------------------------------------------- generators
int gen_int(Src& s) {
  switch (s.weighted({6, 3, 2, 3})) {
    case 0: return (int)s.draw(20);
    case 1: return (int)s.range(-1000, 1000);
    case 2: {
      static const std::vector<int> ext = {INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, -1, 1 << 30, -(1 << 30), 255, 256, 65535, 65536, 999999999, 1000000000, -999999999, -1000000000, 2000000000, -2000000000};
      return s.pick(ext);
    }
    default: return (int)(uint32_t)s.draw(0xffffffffu);
  }
}
static std::string blob(Src& s, size_t len, bool binary) {
  Rng r(s.seed32());
  std::string o(len, 'x');
  bool bin = binary && (r.next() & 1);
  for (auto& c : o) c = bin ? (char)(1 + r.below(255)) : (char)('a' + r.below(26));
  return o;
}
std::string gen_key(Src& s, const KeyCfg& c, const std::vector<std::string>* pool) {
  static const std::vector<std::string> small = {"a", "b", "c", "aa", "ab", "A", "k", "key", "val"};
  static const std::vector<std::string> odd = {"%s", "%d%n", " ", "a b", "=", "x = y", "NULL", "NULL LIST", "NULL KEY", "/", "..", "RANK", "RANKS", "LEVEL", "FILE", "OFFSET", "D", "S", "0x10", "-0", "007", "+5", " 7", "1e3", "10", "9", "2", "-1", "\t", "\x7f", "\xff", "\xff\xfe", "caf\xc3\xa9", "a.b", "\"q\"", "\\", "-"};
  std::string k;
  switch (s.weighted({8, 5, 4, 3, 3, c.longw, 2})) {
    case 0: k = s.pick(small); break;
    case 1: k = std::to_string(gen_int(s)); break;
    case 2: {  // derived from an existing key
      if (!pool || pool->empty()) { k = s.pick(small); break; }
      k = s.pick(*pool);
      switch (s.draw(4)) {
        case 0: k += (char)(c.binary ? 1 + s.draw(254) : 'a' + s.draw(25)); break;
        case 1: if (!k.empty()) k.pop_back(); break;
        case 2: if (!k.empty()) k[k.size() - 1] ^= 0x20; break;
        case 3: if (!k.empty()) k[0] ^= (char)(c.binary ? 0x80 : 1); break;
        default: break;
      }
      for (auto& ch : k) if (!ch) ch = 1;
      break;
    }
    case 3: {
      size_t n = 1 + s.draw(7);
      for (size_t i = 0; i < n; i++) k += (char)(c.binary ? 1 + s.draw(254) : 'a' + s.draw(25));
      break;
    }
    case 4: k = s.pick(odd); break;
    case 5: {
      static const std::vector<size_t> lens = {15, 16, 17, 31, 32, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1022, 1023, 1024, 1025, 2047, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 70000};
      size_t l = s.pick(lens);
      if (l > c.maxlen) l = 1 + s.draw(c.maxlen - 1);
      k = blob(s, l, c.binary);
      break;
    }
    default: k = ""; break;
  }
  if (k.size() > c.maxlen) k.resize(c.maxlen);
  if (!c.empty && k.empty()) k = "e";
  if (!c.binary) for (auto& ch : k) if ((unsigned char)ch >= 0x80 || (unsigned char)ch < 32 || ch == 127) ch = '_';
  if (!c.newline) for (auto& ch : k) if (ch == '\n') ch = '_';
  return k;
}

static void gen_into(Src& s, T* t, size_t& budget, int level, const TreeCfg& c, std::vector<std::string>& pool) {
  size_t n = level == 0 ? s.weighted({1, 4, 8, 3}) : level < 3 ? s.weighted({1, 5, 5, 1}) : s.weighted({2, 6, 4, 1});
  size_t cnt = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 1 + s.draw(4) : 1 + s.draw(level == 0 ? 30 : 12);
  for (size_t i = 0; i < cnt && budget > 0; i++) {
    budget--;
    std::string k = gen_key(s, c.key, &pool);
    if (pool.size() < 64 && k.size() < 2000) pool.push_back(k);
    T* v = nullptr;
    if (c.nulls && s.chance(1, 8)) v = nullptr;
    else {
      v = new T;
      if (s.chance(level < 2 ? 3 : 2, 5)) gen_into(s, v, budget, level + 1, c, pool);
    }
    t->put(k, v);
  }
}
TP gen_big(Src& s, size_t bytes, size_t levels, size_t width) {
  TP t(new T);
  auto edge = [&](std::vector<size_t> v, size_t most) {
    while (v.size() > 1 && v.back() > most) v.pop_back();
    size_t e = s.pick(v), n = s.chance(1, 2) ? e - 2 + s.draw(4) : e + s.draw(e / 2);
    return std::max<size_t>(1, std::min(n, most));
  };
  T* at = t.get();
  if (s.chance(1, 2)) { t->sub("other"); at = t->sub(s.chance(1, 2) ? "above" : "zz"); }
  switch (s.weighted({3, 4, 2, 4})) {
    case 0: {  // many keys in a level
      size_t n = edge({100, 256, 1000, 1024, 4096, 8192, 10000}, std::min(width, bytes / 12 + 1));
      Rng r(s.seed32());
      std::string pre = s.chance(1, 2) ? "" : "key ";
      for (size_t i = 0; i < n; i++) {
        T* v = r.below(16) ? nullptr : new T;
        if (v && r.below(2)) v->put("v", new T);
        at->put(pre + std::to_string(i), v);
      }
      break;
    }
    case 1: {  // long keys
      size_t k = 1 + s.draw(2), n = edge({256, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 1048576, 4194304}, bytes / k);
      for (size_t i = 0; i < k; i++) { std::string key(n - std::min(i, n - 1), (char)('a' + i)); at->put(key, new T); if (s.chance(1, 2)) at->at(key)->put("below", new T); }
      break;
    }
    case 2: {  // deep
      size_t n = edge({50, 100, 128, 256, 1000, 1024, 4096, 20000}, std::min(levels, bytes / 10 + 1));
      for (size_t i = 0; i < n; i++) { at->put("k", new T); if (i % 97 == 0) at->put("side", new T); at = at->at("k"); }
      break;
    }
    default: {  // many strings
      size_t total = edge({1024, 4096, 10000, 65536, 262144, 1048576, 3000000}, bytes), piece = 1 + s.draw(s.chance(1, 2) ? 200 : 20000);
      if (total / piece > width) piece = total / width + 1;
      for (size_t i = 0; i * piece < total; i++) at->sub(fmt("%zu", i))->sub(std::string(piece, (char)('A' + i % 26)));
    }
  }
  return t;
}
TP gen_tree(Src& s, const TreeCfg& c) {
  if (c.big && s.chance(1, c.bigrate)) return gen_big(s, c.big, c.bigdeep, c.bigwide);
  TP t(new T);
  std::vector<std::string> pool;
  size_t budget = c.maxnodes;
  size_t kind = s.weighted({10, (unsigned)(c.maxwide ? 1 : 0), (unsigned)(c.maxdeep ? 1 : 0), 1});
  if (kind == 3) { if (!c.allow_empty) t->put("a", new T); return t; }
  gen_into(s, t.get(), budget, 0, c, pool);
  if (kind == 1) {
    // a wide level somewhere
    size_t n = 1 + s.draw(c.maxwide - 1);
    Rng r(s.seed32());
    T* at = t.get();
    while (!at->kids.empty() && s.chance(1, 2)) { auto it = at->kids.begin(); if (!it->second) break; at = it->second; }
    bool ints = s.chance(1, 2);
    for (size_t i = 0; i < n; i++) {
      std::string k = ints ? std::to_string((long)i * 7 - 3) : std::string();
      if (!ints) { size_t l = 1 + r.below(6); for (size_t q = 0; q < l; q++) k += (char)('a' + r.below(26)); }
      T* v = c.nulls && r.below(8) == 0 ? nullptr : new T;
      if (v && r.below(4) == 0) v->put(std::to_string(r.below(100)), new T);
      at->put(k, v);
    }
  } else if (kind == 2) {
    size_t n = 1 + s.draw(c.maxdeep - 1);
    Rng r(s.seed32());
    T* at = t.get();
    bool same = s.chance(1, 2);
    for (size_t i = 0; i < n; i++) {
      std::string k = same ? "d" : std::string(1, (char)('a' + r.below(26)));
      if (c.key.empty && r.below(16) == 0) k = "";
      T* v = new T;
      at->put(k, v);
      at = v;
      if (r.below(20) == 0 && !at->has("side")) at->put("side", new T);
    }
  }
  if (c.longrate && s.chance(1, c.longrate)) {
    size_t n = s.pick(std::vector<size_t>{4096, 8192, 16384, 32768, 65536, 100000});
    T* at = t.get();
    if (!at->kids.empty() && at->kids.begin()->second && s.chance(1, 2)) at = at->kids.begin()->second;
    size_t len = s.chance(1, 2) ? n - 3 + s.draw(6) : n / 4 + s.draw(n);
    if (s.chance(1, 3)) {  // the file as a whole has a round size, or nearly
      size_t unit = s.pick(std::vector<size_t>{512, 1024, 4096, 65536}), have = packed_size(t.get()) + 24 + 5, e = s.draw(4);
      size_t total = (have / unit + 1 + s.draw(2)) * unit + (e == 3 ? 1 : 0) - (e == 4 ? 1 : 0);
      if (total > have) len = total - have;
    }
    std::string key(len, 'l');
    if (!at->has(key)) at->sub(key);
  }
  if (!c.allow_empty && t->kids.empty()) t->put("a", new T);
  return t;
}
static bool has_null(const T* t) {
  for (auto& k : t->kids) if (!k.second || has_null(k.second)) return true;
  return false;
}
static size_t maxkey(const T* t) {
  size_t m = 0;
  for (auto& k : t->kids) { m = std::max(m, k.first.size()); if (k.second) m = std::max(m, maxkey(k.second)); }
  return m;
}
static bool has_emptykey(const T* t) {
  for (auto& k : t->kids) if (k.first.empty() || (k.second && has_emptykey(k.second))) return true;
  return false;
}
void label_tree(Ctx& x, const T* t) {
  if (!t || t->kids.empty()) { x.label("tree:empty"); return; }
  size_t n = nodes(t), d = depth(t), w = width(t), mk = maxkey(t);
  x.label(n == 1 ? "tree:nodes=1" : n < 10 ? "tree:nodes<10" : n < 100 ? "tree:nodes<100" : "tree:nodes>=100");
  if (d > 100) x.label(d > 512 ? "tree:depth>512" : "tree:depth>100");
  if (w > 256) x.label("tree:width>256");
  if (mk >= 1024) x.label(mk >= 65536 ? "tree:key>=64K" : "tree:key>=1K");
  if (has_null(t)) x.label("tree:null-subtree");
  if (has_emptykey(t)) x.label("tree:empty-key");
}

// ---------------------------------------------------------------- codec
uint32_t my_crc32(const void* p, size_t n, uint32_t seed) {
  static uint32_t tab[256];
  if (!tab[1]) for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; tab[i] = c; }
  uint32_t c = ~seed;
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) c = tab[(c ^ b[i]) & 255] ^ (c >> 8);
  return ~c;
}
static void be(std::string& o, uint64_t v, int n) { while (n--) o += (char)(v >> (8 * n)); }
static uint64_t rd(const char* p, int n) { uint64_t v = 0; while (n--) v = v << 8 | (unsigned char)*p++; return v; }
void encode_body(const T* t, std::string& out, Rng* order) {
  if (!t) { be(out, 0, 4); return; }
  be(out, t->kids.size(), 4);
  std::vector<std::pair<const std::string*, const T*>> v;
  for (auto& k : t->kids) v.push_back({&k.first, k.second});
  if (order) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[order->below(i)]);
  for (auto& p : v) { out += *p.first; out += '\0'; encode_body(p.second, out, order); }
}
std::string frame(const std::string& body, bool crc, uint32_t extra) {
  std::string o;
  be(o, 0x951fc3f5, 4); be(o, 1, 2); be(o, 1, 2);
  be(o, 20 + body.size() + (crc ? 4 : 0), 8);
  be(o, (crc ? 1 : 0) | extra, 4);
  o += body;
  if (crc) be(o, my_crc32(o.data(), o.size()), 4);
  return o;
}
std::string encode_file(const T* t, bool crc, Rng* order, uint32_t extra) {
  std::string b;
  encode_body(t, b, order);
  return frame(b, crc, extra);
}
void encode_real(const kvtree* h, std::string& out) {
  if (!h) { be(out, 0, 4); return; }
  size_t at = out.size();
  be(out, 0, 4);
  uint32_t n = 0;
  for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) {
    n++;
    out += K->kvtree_elem_key(e);
    out += '\0';
    encode_real(K->kvtree_elem_hash(e), out);
  }
  std::string c;
  be(c, n, 4);
  out.replace(at, 4, c);
}
std::string encode_real_file(const kvtree* h) {
  std::string b;
  encode_real(h, b);
  return frame(b, true);
}
size_t decode_body(const char* p, size_t n, T* out, size_t maxdepth) {
  if (n < 4 || maxdepth == 0) return 0;
  uint64_t cnt = rd(p, 4);
  size_t pos = 4;
  for (uint64_t i = 0; i < cnt; i++) {
    const char* z = (const char*)memchr(p + pos, 0, n - pos);
    if (!z) return 0;
    std::string k(p + pos, z - (p + pos));
    pos += k.size() + 1;
    T sub;
    T* tgt = out ? out->sub(k) : nullptr;  // repeated keys are united, as when merged
    size_t c = decode_body(p + pos, n - pos, tgt, maxdepth - 1);
    if (!c) return 0;
    pos += c;
  }
  return pos;
}
int decode_file(const std::string& b, T* out, size_t* used) {
  if (b.empty()) return 1;
  if (b.size() < 20) return -1;
  if (rd(&b[0], 4) != 0x951fc3f5 || rd(&b[4], 2) != 1 || rd(&b[6], 2) != 1) return -1;
  uint64_t fs = rd(&b[8], 8);
  uint32_t flags = rd(&b[16], 4);
  if (fs < 20 || fs > b.size()) return -1;
  uint64_t end = fs;
  if (flags & 1) {
    if (fs < 24) return -1;
    end = fs - 4;
    if (my_crc32(b.data(), end) != rd(&b[end], 4)) return -1;
  }
  T tmp;
  size_t c = decode_body(b.data() + 20, end - 20, &tmp);
  if (!c || 20 + c != end) return -1;
  if (out) merge(out, &tmp);
  if (used) *used = fs;
  return 0;
}

// ---------------------------------------------------------------- files
std::string slurp(const std::string& path, bool* ok) {
  std::string o;
  FILE* f = fopen(path.c_str(), "r");
  if (ok) *ok = f != nullptr;
  if (!f) return o;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) o.append(buf, n);
  fclose(f);
  return o;
}
void spew(const std::string& path, const std::string& bytes) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) throw Discard{};
  fwrite(bytes.data(), 1, bytes.size(), f);
  fclose(f);
}
bool exists(const std::string& path) { struct stat st; return stat(path.c_str(), &st) == 0; }
