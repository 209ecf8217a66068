// Format-string access equals step-by-step access along the same keys.
#include "ops.hpp"
#include <cmath>

// A variadic call with arguments chosen at run time.  On x86-64 (System V) integer-class and
// floating-point variadic arguments are fetched from separate register areas as long as there are
// at most 8 doubles, so passing all doubles and then all integer-class arguments is equivalent to
// passing them in any interleaving.
#define INTS(a) a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16],a[17],a[18],a[19],a[20],a[21],a[22],a[23],a[24],a[25],a[26],a[27],a[28],a[29],a[30],a[31],a[32],a[33],a[34],a[35],a[36],a[37],a[38],a[39]
struct Args {
  std::string format;
  std::vector<std::string> keys;   // expected key texts
  uint64_t i[40];
  double d[8];
  int ni = 0, nd = 0;
  std::vector<std::string*> strs;
  Args() { for (auto& v : i) v = 0x5a5a5a5a5a5a5a5aull; for (auto& v : d) v = 12345.5; }
  Args(const Args&) = delete;
  ~Args() { for (auto* p : strs) delete p; }
};
static kvtree* call_set(kvtree* h, kvtree* v, Args& a) {
  return K->kvtree_setf(h, v, a.format.c_str(), a.d[0], a.d[1], a.d[2], a.d[3], a.d[4], a.d[5], a.d[6], a.d[7], INTS(a.i));
}
static kvtree* call_get(kvtree* h, Args& a) {
  return K->kvtree_getf(h, a.format.c_str(), a.d[0], a.d[1], a.d[2], a.d[3], a.d[4], a.d[5], a.d[6], a.d[7], INTS(a.i));
}
static uint64_t gen_u64(Src& s) {
  switch (s.weighted({4, 2, 3})) {
    case 0: return s.draw(12);
    case 1: { static const std::vector<uint64_t> e = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~1ull, 4294967297ull, 10000000000ull}; return s.pick(e); }
    default: return s.draw(~0ull);
  }
}
static double gen_double(Src& s) {
  switch (s.weighted({4, 2, 2, 2})) {
    case 0: return (double)s.range(-20, 20) / 4;
    case 1: { static const std::vector<double> e = {0.0, -0.0, 1e-7, 5e-7, 1e300, -1e300, 1.7976931348623157e308, 1e-300, INFINITY, -INFINITY, 0.1, 123456789.987654321}; return s.pick(e); }
    case 2: { double v; uint64_t b = s.draw(~0ull); memcpy(&v, &b, 8); return std::isnan(v) ? 1.0 : v; }
    default: return (double)(int64_t)gen_u64(s) * 1e-3;
  }
}
// one more path component; hint = an existing key text to aim at, or empty
static void add_key(Src& s, Args& a, const std::string& hint, std::vector<std::string>& pool) {
  char buf[1024];
  if (!a.format.empty()) a.format += " ";
  KeyCfg kc;
  kc.maxlen = 1023;
  size_t kind = s.weighted({6, 4, 2, 2, 2, 2, 2, 2, 2});
  if (kind == 7 && a.nd == 8) kind = 1;
  switch (kind) {
    case 0: {
      std::string* t = new std::string(hint.size() < 1024 && s.chance(3, 4) && !hint.empty() ? hint : gen_key(s, kc, &pool));
      a.strs.push_back(t);
      a.format += "%s"; a.i[a.ni++] = (uint64_t)t->c_str(); a.keys.push_back(*t);
      break;
    }
    case 1: { int v = gen_int(s); if (!hint.empty() && s.chance(1, 2) && str_of_int(atoi(hint.c_str())) == hint) v = atoi(hint.c_str()); a.format += "%d"; a.i[a.ni++] = (uint32_t)v | (s.chance(1, 2) ? 0 : 0xdead00000000ull << 16); snprintf(buf, sizeof buf, "%d", v); a.keys.push_back(buf); break; }
    case 2: { long long v = (long long)gen_u64(s); a.format += "%lld"; a.i[a.ni++] = (uint64_t)v; snprintf(buf, sizeof buf, "%lld", v); a.keys.push_back(buf); break; }
    case 3: { unsigned long v = gen_u64(s); a.format += "%lu"; a.i[a.ni++] = v; snprintf(buf, sizeof buf, "%lu", v); a.keys.push_back(buf); break; }
    case 4: { unsigned v = (unsigned)gen_u64(s); a.format += "%#x"; a.i[a.ni++] = v; snprintf(buf, sizeof buf, "%#x", v); a.keys.push_back(buf); break; }
    case 5: { unsigned long v = gen_u64(s); a.format += "%#lx"; a.i[a.ni++] = v; snprintf(buf, sizeof buf, "%#lx", v); a.keys.push_back(buf); break; }
    case 6: { unsigned long long v = gen_u64(s); a.format += "%llu"; a.i[a.ni++] = v; snprintf(buf, sizeof buf, "%llu", v); a.keys.push_back(buf); break; }
    case 7: { double v = gen_double(s); a.format += "%f"; a.d[a.nd++] = v; snprintf(buf, sizeof buf, "%f", v); a.keys.push_back(buf); break; }
    default: { void* v = (void*)gen_u64(s); a.format += "%p"; a.i[a.ni++] = (uint64_t)v; snprintf(buf, sizeof buf, "%p", v); a.keys.push_back(buf); break; }
  }
}
static void gen_path(Src& s, const T* m, Args& a, std::vector<std::string>& pool, size_t n, const std::vector<std::string>* from = nullptr) {
  const T* at = m;
  size_t i = 0;
  if (from) {  // along an earlier path, up to its end or not, and on
    size_t k = s.chance(1, 2) ? from->size() : s.draw(from->size());
    for (; i < k && i < 39; i++) {
      std::string* t = new std::string((*from)[i]);
      a.strs.push_back(t);
      if (i) a.format += " ";
      a.format += "%s"; a.i[a.ni++] = (uint64_t)t->c_str(); a.keys.push_back(*t);
      at = at ? ((T*)at)->at(*t) : nullptr;
    }
    n = std::min((size_t)39, i + 1 + s.draw(3));
  }
  for (; i < n; i++) {
    std::string hint;
    if (at && !at->kids.empty() && s.chance(3, 4)) {
      auto it = at->kids.begin();
      std::advance(it, s.draw(at->kids.size() - 1));
      hint = it->first;
    }
    add_key(s, a, hint, pool);
    at = at ? ((T*)at)->at(a.keys.back()) : nullptr;
  }
  for (auto& k : a.keys) if (k.size() < 300 && pool.size() < 60) pool.push_back(k);
}
static std::string show_path(const Args& a) {
  std::string o = "\"" + a.format + "\" =";
  for (size_t i = 0; i < a.keys.size() && i < 12; i++) o += " " + quote(a.keys[i], 20);
  return o;
}
static kvtree* walk(kvtree* h, const std::vector<std::string>& ks) {
  for (auto& k : ks) h = K->kvtree_get(h, k.c_str());
  return h;
}
static void history(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = 12;
  TP m = s.chance(1, 2) ? gen_tree(s, c) : TP(new T);
  H h(build(m.get()));
  std::vector<std::string> pool;
  std::vector<std::vector<std::string>> past;
  x.note("start %s", show(m.get()).c_str());
  size_t n = 1 + s.size(25);
  int replaced = 0, created = 0, found = 0;
  for (size_t i = 0; i < n; i++) {
    Args a;
    size_t len = s.weighted({8, 1}) ? 1 + s.draw(39) : 1 + s.draw(5);
    gen_path(s, m.get(), a, pool, len, !past.empty() && s.chance(1, 3) ? &s.pick(past) : nullptr);
    past.push_back(a.keys);
    if (s.chance(3, 5)) {
      TreeCfg d;
      d.maxnodes = 4;
      TP v = s.chance(1, 5) ? TP() : gen_tree(s, d);
      kvtree* real = build(v.get());
      x.note("setf(%s, %s)", show_path(a).c_str(), show(v.get(), 80).c_str());
      std::vector<kvtree*> levels;  // those that exist stay the same objects
      kvtree* lv = h;
      for (size_t q = 0; q + 1 < a.keys.size(); q++) { lv = K->kvtree_get(lv, a.keys[q].c_str()); if (!lv) break; levels.push_back(lv); }
      kvtree* got = call_set(h, real, a);
      lv = h;
      for (size_t q = 0; q < levels.size(); q++) { lv = K->kvtree_get(lv, a.keys[q].c_str()); REQUIRE(lv == levels[q], "setf(%s) replaces the existing level of key %s", show_path(a).c_str(), quote(a.keys[q]).c_str()); }
      REQUIRE(got == real, "setf(%s) returns %s", show_path(a).c_str(), got ? "another tree" : "NULL");
      T* at = m.get();
      for (size_t q = 0; q + 1 < a.keys.size(); q++) { if (!at->at(a.keys[q])) created++; at = at->sub(a.keys[q]); }
      if (at->has(a.keys.back())) replaced++;
      at->put(a.keys.back(), nullptr);
      at->ref(a.keys.back()) = v.release();
      require_equal(h, m.get(), "tree after setf");
    }
    std::string before = snapshot(h);
    kvtree* got = call_get(h, a);
    T* at = m.get();
    for (auto& k : a.keys) at = at ? at->at(k) : nullptr;
    REQUIRE((got != nullptr) == (at != nullptr), "getf(%s) finds %s", show_path(a).c_str(), got ? "a tree where none is" : "nothing");
    REQUIRE(got == walk(h, a.keys), "getf(%s) returns another subtree than a walk", show_path(a).c_str());
    if (got) { found++; require_equal(got, at, "subtree found by getf"); }
    REQUIRE(snapshot(h) == before, "getf changed the tree");
  }
  Args none;
  REQUIRE(K->kvtree_getf(h, "") == h.h, "getf with no keys is not the tree itself");
  if (created) x.label("created intermediate levels");
  if (replaced) x.label("replaced a subtree");
  if (found) x.label("getf found a subtree");
  if (replaced && created) x.nontrivial();
}
// every conversion with extreme values, alone and at the end of a path
static void conversions(Src& s, Ctx& x) {
  H h(K->kvtree_new());
  T m;
  std::vector<std::string> pool;
  for (int i = 0; i < 20; i++) {
    Args a;
    size_t len = 1 + s.draw(2);
    for (size_t q = 0; q < len; q++) add_key(s, a, "", pool);
    kvtree* v = K->kvtree_new();
    if (i < 8) x.note("setf(%s)", show_path(a).c_str());
    REQUIRE(call_set(h, v, a) == v, "setf(%s) does not return the tree set", show_path(a).c_str());
    REQUIRE(walk(h, a.keys) == v, "setf(%s) did not set that path", show_path(a).c_str());
    REQUIRE(call_get(h, a) == v, "getf(%s) does not find it", show_path(a).c_str());
    T* at = &m;
    for (size_t q = 0; q + 1 < a.keys.size(); q++) at = at->sub(a.keys[q]);
    at->put(a.keys.back(), nullptr);
    at->ref(a.keys.back()) = new T;
    require_equal(h, &m, "tree after setf");
  }
  x.nontrivial();
}
// long keys up to the documented buffer, long paths
static void longkeys(Src& s, Ctx& x) {
  H h(K->kvtree_new());
  size_t n = 1 + s.draw(39);
  Args a;
  T m;
  T* at = &m;
  Rng r(s.seed32());
  for (size_t i = 0; i < n; i++) {
    size_t len = s.chance(1, 2) ? 1015 + s.draw(8) : s.draw(1023);
    std::string* t = new std::string(len, 'x');
    for (auto& c : *t) c = (char)(1 + r.below(255));
    a.strs.push_back(t);
    if (i) a.format += " ";
    a.format += "%s"; a.i[a.ni++] = (uint64_t)t->c_str(); a.keys.push_back(*t);
    at = at->sub(*t);
  }
  x.note("path of %zu keys up to 1023 bytes", n);
  kvtree* v = K->kvtree_new();
  REQUIRE(call_set(h, v, a) == v, "setf with long keys");
  require_equal(h, &m, "tree after setf");
  REQUIRE(call_get(h, a) == v, "getf with long keys");
  x.nontrivial();
}

Prop pbt::prop = {
  "T04", "exploration",
  "case = history of setf/getf calls with generated formats and arguments compared with a key-by-key walk of a nested-map model; non-trivial: a subtree was "
  "replaced and intermediate levels were created (history), any conversions or longkeys case",
  {{"history", history, 96000, 960000}, {"conversions", conversions, 40000, 400000}, {"longkeys", longkeys, 12000, 120000}},
  {"conversions are separated by single spaces", "at most 40 keys, 8 of them doubles", "x86-64 System V argument passing"},
};
