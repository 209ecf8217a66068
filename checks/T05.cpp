// Typed scalar fields read back the value that was last stored.
#include "ops.hpp"
#include <cmath>
#include <unistd.h>
#include <fcntl.h>

enum Ty { INT, I64, UL, BYTES, CRC, STR, PTR, DBL, NTY };
static const char* ty_name[] = {"int", "int64", "unsigned_long", "bytecount", "crc32", "str", "ptr", "double"};
struct Val {
  Ty ty;
  uint64_t u = 0;  // also int, int64, ptr
  double d = 0;
  std::string s;
};
static std::string show(const Val& v) {
  switch (v.ty) {
    case INT: return fmt("int %d", (int)v.u);
    case I64: return fmt("int64 %lld", (long long)v.u);
    case STR: return "str " + quote(v.s);
    case DBL: return fmt("double %.17g", v.d);
    default: return fmt("%s %#llx", ty_name[v.ty], (unsigned long long)v.u);
  }
}
static uint64_t gen_u64(Src& s) {
  switch (s.weighted({4, 3, 2, 3})) {
    case 0: return s.draw(12);
    case 1: { static const std::vector<uint64_t> e = {0, 1, 7, 8, 9, 10, 0777, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~1ull, 4294967297ull, 10000000000ull, 9999999999999999999ull}; return s.pick(e); }
    case 2: return (1ull << s.draw(63)) - s.draw(1);
    default: return s.draw(~0ull);
  }
}
static double gen_double(Src& s) {
  switch (s.weighted({4, 3, 2, 3, 3})) {
    case 0: return (double)s.range(-64, 64) / 64;                     // six decimals are exact
    case 1: { static const std::vector<double> e = {0.0, -0.0, 1e-7, 4.9e-7, 5e-7, 5.1e-7, 1e-6, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, INFINITY, -INFINITY, 0.1, 0.000001, 0.999999, 0.9999995, 123456789.987654, -1e15, 9007199254740993.0, 1e22, 18446744073709551616.0, 0.30000000000000004}; return s.pick(e); }
    case 2: { double v; uint64_t b = s.draw(~0ull); memcpy(&v, &b, 8); return std::isnan(v) ? 2.5 : v; }
    case 3: return (double)(int64_t)gen_u64(s) * 1e-6;
    default: return (double)s.range(-1000000000, 1000000000) / 1e6;
  }
}
static Val gen_val(Src& s, Ty ty) {
  Val v;
  v.ty = ty;
  switch (ty) {
    case INT: v.u = (uint64_t)(int64_t)gen_int(s); break;
    case CRC: v.u = (uint32_t)gen_u64(s); break;
    case STR: v.s = s.chance(1, 500) ? std::string(s.pick(std::vector<size_t>{1000, 99999, 131072, 1048576, 3000000}) + s.draw(3), (char)('a' + s.draw(25))) : gen_key(s); break;
    case DBL: v.d = gen_double(s); break;
    default: v.u = gen_u64(s);
  }
  return v;
}
static int put(kvtree* h, const char* k, const Val& v) {
  switch (v.ty) {
    case INT: return K->kvtree_util_set_int(h, k, (int)v.u);
    case I64: return K->kvtree_util_set_int64(h, k, (int64_t)v.u);
    case UL: return K->kvtree_util_set_unsigned_long(h, k, (unsigned long)v.u);
    case BYTES: return K->kvtree_util_set_bytecount(h, k, (unsigned long)v.u);
    case CRC: return K->kvtree_util_set_crc32(h, k, (uLong)v.u);
    case STR: return K->kvtree_util_set_str(h, k, v.s.c_str());
    case PTR: return K->kvtree_util_set_ptr(h, k, (void*)v.u);
    default: return K->kvtree_util_set_double(h, k, v.d);
  }
}
// reads with the getter of type ty into poisoned outputs; out.ty tells what was read
static int get(const kvtree* h, const char* k, Ty ty, Val& out, bool& touched) {
  out.ty = ty;
  touched = false;
  int rc;
  switch (ty) {
    case INT: { int a = 0x13579bdf, b = a; rc = K->kvtree_util_get_int(h, k, &a); out.u = (uint64_t)(int64_t)a; touched = a != b; break; }
    case I64: { int64_t a = 0x13579bdf2468ace0ll, b = a; rc = K->kvtree_util_get_int64(h, k, &a); out.u = (uint64_t)a; touched = a != b; break; }
    case UL: { unsigned long a = 0x13579bdf2468ace0ul, b = a; rc = K->kvtree_util_get_unsigned_long(h, k, &a); out.u = a; touched = a != b; break; }
    case BYTES: { unsigned long a = 0x13579bdf2468ace0ul, b = a; rc = K->kvtree_util_get_bytecount(h, k, &a); out.u = a; touched = a != b; break; }
    case CRC: { uLong a = 0x13579bdf2468ace0ul, b = a; rc = K->kvtree_util_get_crc32(h, k, &a); out.u = a; touched = a != b; break; }
    case STR: { char dummy[4]; char *a = dummy, *b = a; rc = K->kvtree_util_get_str(h, k, &a); touched = a != b; if (rc == KVTREE_SUCCESS) { REQUIRE(a && a != dummy, "get_str succeeds without a string"); out.s = a; } break; }
    case PTR: { void *a = (void*)0x13579bdf2468ace0ul, *b = a; rc = K->kvtree_util_get_ptr(h, k, &a); out.u = (uint64_t)a; touched = a != b; break; }
    default: { double a = 1234567.25, b = a; rc = K->kvtree_util_get_double(h, k, &a); out.d = a; touched = memcmp(&a, &b, 8) != 0; break; }
  }
  return rc;
}
static void check_stored(const kvtree* h, const std::string& k, const Val& v, const char* when) {
  Val g;
  bool touched;
  int rc = get(h, k.c_str(), v.ty, g, touched);
  std::string what = show(v), kq = quote(k);
  REQUIRE(rc == KVTREE_SUCCESS, "%s: reading key %s fails (%d); stored was %s", when, kq.c_str(), rc, what.c_str());
  if (v.ty == STR) REQUIRE(g.s == v.s, "%s: key %s reads %s; stored was %s", when, kq.c_str(), quote(g.s).c_str(), what.c_str());
  else if (v.ty == DBL) {
    char buf[400];
    snprintf(buf, sizeof buf, "%.6f", v.d);
    bool exact = strtod(buf, nullptr) == v.d;
    double tol = 0.5000001e-6 + std::fabs(g.d) * 2.3e-16;
    bool ok = exact || std::isinf(v.d) ? g.d == v.d : std::fabs(g.d - v.d) <= tol;
    REQUIRE(ok, "%s: key %s reads %.17g; stored was %s", when, kq.c_str(), g.d, what.c_str());
  } else REQUIRE(g.u == v.u, "%s: key %s reads %s; stored was %s", when, kq.c_str(), show(g).c_str(), what.c_str());
  kvtree* sub = K->kvtree_get(h, k.c_str());
  REQUIRE(K->kvtree_size(sub) == 1, "%s: %d values under key %s", when, K->kvtree_size(sub), kq.c_str());
  REQUIRE(K->kvtree_get_val(h, k.c_str()) && K->kvtree_elem_get_first_val(h, k.c_str()), "%s: no value under key %s", when, kq.c_str());
}
static void check_absent(const kvtree* h, const std::string& k, const char* why) {
  for (int t = 0; t < NTY; t++) {
    Val g;
    bool touched;
    int rc = get(h, k.c_str(), (Ty)t, g, touched);
    REQUIRE(rc != KVTREE_SUCCESS, "get_%s of %s key %s succeeds", ty_name[t], why, quote(k).c_str());
    REQUIRE(!touched, "get_%s of %s key %s changes the output variable", ty_name[t], why, quote(k).c_str());
  }
}
static void history(Src& s, Ctx& x) {
  H h(K->kvtree_new());
  std::map<std::string, Val> m;
  T other;  // keys that hold no scalar
  std::vector<std::string> pool;
  KeyCfg kc;
  kc.maxlen = 1023;
  size_t n = 1 + s.size(40);
  std::string file = scratch() + "/f";
  int replaced = 0, tychange = 0, files = 0;
  for (size_t i = 0; i < n; i++) {
    std::string k;
    if (!m.empty() && s.chance(1, 2)) { auto it = m.begin(); std::advance(it, s.draw(m.size() - 1)); k = it->first; }
    else { k = gen_key(s, kc, &pool); if (pool.size() < 40) pool.push_back(k); }
    switch (s.weighted({8, 1, 2, 1, 1, 2})) {
      case 0: {
        Val v = gen_val(s, (Ty)s.draw(NTY - 1));
        x.note("set %s = %s", quote(k).c_str(), show(v).c_str());
        if (m.count(k)) { replaced++; if (m[k].ty != v.ty) tychange++; }
        int rc = put(h, k.c_str(), v);
        REQUIRE(rc == KVTREE_SUCCESS, "set_%s returns %d", ty_name[v.ty], rc);
        m[k] = v;
        other.erase(k);
        break;
      }
      case 1: x.note("unset %s", quote(k).c_str()); K->kvtree_unset(h, k.c_str()); m.erase(k); other.erase(k); break;
      case 2: {  // a key without value, or with several
        size_t c = s.draw(1) ? 0 : 2 + s.draw(3);
        x.note("key %s gets %zu values", quote(k).c_str(), c);
        kvtree* v = c == 0 && s.chance(1, 2) ? nullptr : K->kvtree_new();
        T* mv = v ? new T : nullptr;
        for (size_t q = 0; q < c; q++) { K->kvtree_set(v, str_of_int((int)q).c_str(), nullptr); mv->put(str_of_int((int)q), new T); }
        K->kvtree_set(h, k.c_str(), v);
        m.erase(k);
        other.put(k, mv);
        break;
      }
      case 3: {  // through a file
        files++;
        x.note("write and read back");
        REQUIRE(K->kvtree_write_file(file.c_str(), h) == KVTREE_SUCCESS, "write fails");
        H g(K->kvtree_new());
        REQUIRE(K->kvtree_read_file(file.c_str(), g) == KVTREE_SUCCESS, "read fails");
        REQUIRE(K->kvtree_size(g) == K->kvtree_size(h), "number of keys changes in a file");
        for (auto& p : m) check_stored(g, p.first, p.second, "after a file round trip");
        break;
      }
      case 5: {  // the value, a chain below it and other values stand under the key when it is stored again
        auto it = m.find(k);
        if (it == m.end()) break;
        Val v = it->second;
        kvtree* sub = K->kvtree_get(h, k.c_str());
        size_t c = s.draw(3);
        bool below = s.chance(1, 3);
        if (below) K->kvtree_set(K->kvtree_elem_hash(K->kvtree_elem_first(sub)), "below", K->kvtree_new());
        for (size_t q = 0; q < c; q++) {
          Val w = s.chance(1, 2) ? v : gen_val(s, v.ty);
          H one(K->kvtree_new());
          REQUIRE(put(one, "v", w) == KVTREE_SUCCESS, "set_%s fails", ty_name[w.ty]);
          K->kvtree_set(sub, s.chance(1, 2) ? K->kvtree_elem_get_first_val(one, "v") : gen_key(s, kc).c_str(), s.chance(1, 2) ? nullptr : K->kvtree_new());
        }
        if (s.chance(1, 2)) { bool t = s.chance(1, 2); v = gen_val(s, t ? v.ty : (Ty)s.draw(NTY - 1)); }
        x.note("key %s has %d values%s, set = %s", quote(k).c_str(), K->kvtree_size(sub), below ? " and one below" : "", show(v).c_str());
        int rc = put(h, k.c_str(), v);
        REQUIRE(rc == KVTREE_SUCCESS, "set_%s returns %d", ty_name[v.ty], rc);
        m[k] = v;
        replaced++;
        break;
      }
      default: {  // through a merge
        H g(K->kvtree_new());
        K->kvtree_merge(g, h);
        for (auto& p : m) check_stored(g, p.first, p.second, "in a merged copy");
      }
    }
    for (auto& p : m) check_stored(h, p.first, p.second, "after the last operation");
    for (auto& p : other.kids) {
      require_equal(K->kvtree_get(h, p.first.c_str()), p.second, "another key");
      if (!p.second || p.second->kids.empty()) check_absent(h, p.first, "a valueless");
    }
    REQUIRE((size_t)K->kvtree_size(h) == m.size() + other.kids.size(), "%d keys, expected %zu", K->kvtree_size(h), m.size() + other.kids.size());
    std::string ak = gen_key(s, kc, &pool);
    if (!m.count(ak) && !other.has(ak)) check_absent(h, ak, "an absent");
  }
  unlink(file.c_str());
  if (replaced) x.label("replaced a value");
  if (tychange) x.label("changed the type under a key");
  if (files) x.label("file round trip");
  if (replaced || files) x.nontrivial();
}
// one type, many values
static void values(Src& s, Ctx& x) {
  Ty ty = (Ty)s.draw(NTY - 1);
  H h(K->kvtree_new());
  for (int i = 0; i < 40; i++) {
    Val v = gen_val(s, ty);
    if (i < 6) x.note("set %s", show(v).c_str());
    REQUIRE(put(h, "k", v) == KVTREE_SUCCESS, "set_%s fails", ty_name[ty]);
    check_stored(h, "k", v, "just stored");
  }
  x.label(ty_name[ty]);
  x.nontrivial();
}

Prop pbt::prop = {
  "T05", "exploration",
  "case = history of typed stores, removals, file round trips and copies, all fields and some absent ones read after every step, or many values of one type; "
  "non-trivial: a value was replaced or went through a file (history), any values case",
  {{"history", history, 192000, 1280000}, {"values", values, 288000, 1920000}},
  {"keys of at most 1023 bytes (documented buffer of the format-string calls the setters use)", "C locale"},
};
