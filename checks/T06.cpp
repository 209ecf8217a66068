// Sorting and listing keys order all keys correctly and lose nothing.
#include "ops.hpp"

struct Item { std::string key; kvtree* sub; kvtree_elem* el; };
static std::vector<Item> items(kvtree* h, size_t limit) {
  std::vector<Item> v;
  for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) {
    v.push_back({K->kvtree_elem_key(e), K->kvtree_elem_hash(e), e});
    REQUIRE(v.size() <= limit, "iteration shows more than the %zu keys of the tree", limit);
  }
  return v;
}
static bool ordered(const std::string& a, const std::string& b, bool ints, bool desc) {
  if (ints) { long x = strtol(a.c_str(), nullptr, 10), y = strtol(b.c_str(), nullptr, 10); return desc ? x >= y : x <= y; }
  int c = strcmp(a.c_str(), b.c_str());
  return desc ? c >= 0 : c <= 0;
}
static void check_order(kvtree* h, const T* m, bool ints, bool desc, const char* when) {
  std::vector<Item> v = items(h, m->kids.size());
  REQUIRE(v.size() == m->kids.size(), "%s: iteration shows %zu of %zu keys", when, v.size(), m->kids.size());
  for (size_t i = 1; i < v.size(); i++)
    REQUIRE(ordered(v[i - 1].key, v[i].key, ints, desc), "%s: %s comes before %s (%s, %s)", when, quote(v[i - 1].key).c_str(), quote(v[i].key).c_str(), ints ? "int" : "string", desc ? "descending" : "ascending");
}
static std::string gen_k(Src& s, bool ints, std::vector<std::string>& pool) {
  if (!ints) return gen_key(s, KeyCfg(), &pool);
  int v = gen_int(s);
  std::string k = str_of_int(v);
  // the same integer can be written in several ways
  if (s.chance(1, 4)) {
    if (!pool.empty() && s.chance(1, 2)) k = s.pick(pool);
    size_t sign = k[0] == '-' || k[0] == '+' ? 1 : 0;
    if (k.size() < 40) {
      if (sign || s.chance(2, 3)) k.insert(sign, std::string(1 + s.draw(3), '0'));
      else k.insert(0, "+");
    }
  }
  return k;
}
static void add(kvtree* h, T* m, const std::string& k, Src& s) {
  kvtree* v = s.chance(1, 6) ? nullptr : K->kvtree_new();
  T* mv = v ? new T : nullptr;
  if (v && s.chance(1, 2)) { std::string q = gen_key(s); K->kvtree_set(v, q.c_str(), K->kvtree_new()); mv->put(q, new T); }
  K->kvtree_set(h, k.c_str(), v);
  m->put(k, nullptr);
  m->ref(k) = mv;
}
// an order of n elements that is sorted but for a few places
static std::vector<size_t> nearly(Src& s, size_t n) {
  std::vector<size_t> o(n);
  for (size_t i = 0; i < n; i++) o[i] = i;
  if (s.chance(1, 3)) std::reverse(o.begin(), o.end());
  if (n < 2) return o;
  size_t k = s.draw(3);
  for (size_t i = 0; i < k; i++) {
    switch (s.draw(3)) {
      case 0: { size_t a = s.draw(n - 2); std::swap(o[a], o[a + 1]); break; }
      case 1: std::swap(o[s.draw(n - 1)], o[s.draw(n - 1)]); break;
      case 2: { size_t a = s.draw(n - 1); std::rotate(o.begin() + a, o.begin() + n - 1, o.end()); break; }
      default: { size_t a = s.draw(n - 1); std::rotate(o.begin(), o.begin() + a, o.begin() + a + 1); break; }
    }
  }
  return o;
}
static void check_list(kvtree* h, const T* m) {
  int n = -7;
  int dummy;
  int* list = &dummy;
  std::string before = snapshot(h);
  int rc = K->kvtree_list_int(h, &n, &list);
  REQUIRE(rc == KVTREE_SUCCESS, "list_int returns %d", rc);
  REQUIRE(n == (int)m->kids.size(), "list_int gives %d entries for %zu keys", n, m->kids.size());
  std::vector<int> want;
  for (auto& k : m->kids) want.push_back((int)strtol(k.first.c_str(), nullptr, 10));
  std::sort(want.begin(), want.end());
  if (n == 0) REQUIRE(!list, "list_int leaves a list for an empty tree");
  for (int i = 0; i < n; i++) REQUIRE(list[i] == want[i], "entry %d of the list is %d, expected %d", i, list[i], want[i]);
  if (n) free(list);
  REQUIRE(snapshot(h) == before, "list_int changed the tree");
}
static void history(Src& s, Ctx& x) {
  bool ints = s.chance(1, 2);
  H root(K->kvtree_new());
  T mroot;
  kvtree* h = root;
  T* m = &mroot;
  if (s.chance(1, 3)) {  // sort an inner level
    K->kvtree_set(root, "side", K->kvtree_new()); mroot.put("side", new T);
    h = K->kvtree_set(root, "in", K->kvtree_new()); m = mroot.sub("in");
  }
  std::vector<std::string> pool;
  size_t rounds = 1 + s.draw(3);
  bool reordered = false;
  for (size_t r = 0; r < rounds; r++) {
    size_t n = s.size(60);
    std::vector<std::string> fresh;
    for (size_t i = 0; i < n; i++) fresh.push_back(gen_k(s, ints, pool));
    if (s.chance(1, 3)) {  // in an order that is nearly sorted already
      std::sort(fresh.begin(), fresh.end(), [&](const std::string& a, const std::string& b) { return !ordered(b, a, ints, false); });
      std::vector<std::string> f;
      for (size_t i : nearly(s, n)) f.push_back(fresh[i]);
      fresh = f;
    }
    for (auto& k : fresh) {
      if (pool.size() < 50 && k.size() < 1000) pool.push_back(k);
      add(h, m, k, s);
    }
    bool desc = s.chance(1, 2);
    x.note("round %zu: %zu keys, sort %s %s", r, m->kids.size(), ints ? "int" : "string", desc ? "descending" : "ascending");
    std::map<std::string, Item> before;
    std::vector<Item> bv = items(h, m->kids.size());
    for (auto& i : bv) before[i.key] = i;
    int dir = desc ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING;
    int rc = ints ? K->kvtree_sort_int(h, dir) : K->kvtree_sort(h, dir);
    REQUIRE(rc == KVTREE_SUCCESS, "sort returns %d", rc);
    check_order(h, m, ints, desc, "after sort");
    std::vector<Item> av = items(h, m->kids.size());
    bool moved = false;
    for (size_t i = 0; i < av.size(); i++) {
      REQUIRE(before.count(av[i].key), "key %s appears by sorting", quote(av[i].key).c_str());
      REQUIRE(before[av[i].key].sub == av[i].sub, "key %s has another subtree after sorting", quote(av[i].key).c_str());
      if (av[i].key != bv[i].key) moved = true;
    }
    if (moved && av.size() >= 3) reordered = true;
    require_equal(root, &mroot, "tree after sort");
    if (ints) check_list(h, m);
    // the order survives lookups and removals
    size_t ops = s.draw(8);
    for (size_t i = 0; i < ops && !m->kids.empty(); i++) {
      std::string k = pick_key(s, m);
      switch (s.draw(4)) {
        case 0: K->kvtree_get(h, k.c_str()); K->kvtree_elem_get_first_val(h, k.c_str()); break;
        case 1: K->kvtree_unset(h, k.c_str()); m->erase(k); break;
        case 2: free_elem(K->kvtree_elem_extract(h, k.c_str())); m->erase(k); break;
        case 3: { kvtree* e = K->kvtree_extract(h, k.c_str()); K->kvtree_delete(&e); m->erase(k); break; }
        default: { kvtree* sub = K->kvtree_get(h, k.c_str()); if (sub) { K->kvtree_set(sub, "zz", nullptr); m->at(k)->put("zz", new T); } break; }
      }
      check_order(h, m, ints, desc, "after a lookup or removal");
    }
    if (ints) check_list(h, m);
    require_equal(root, &mroot, "tree after removals");
  }
  x.label(ints ? "int keys" : "string keys");
  if (reordered) x.nontrivial();
}
static void wide(Src& s, Ctx& x) {
  H h(K->kvtree_new());
  T m;
  bool ints = s.chance(2, 3);
  size_t n = 100 + s.draw(s.chance(1, 20) ? 100000 : thorough ? 20000 : 3000);
  Rng r(s.seed32());
  int style = (int)s.draw(3);
  for (size_t i = 0; i < n; i++) {
    std::string k;
    if (ints) k = str_of_int(style == 0 ? (int)(uint32_t)r.next() : style == 1 ? (int)i : style == 2 ? (int)(n - i) * 1000 - 50000 : (int)r.below(n * 4) - (int)n);
    else k = fmt(style & 1 ? "%x" : "key%05u", (unsigned)r.below(n * 5));
    m.put(k, new T);
  }
  bool near = s.chance(1, 3);
  if (near) {
    std::vector<std::string> ks;
    for (auto& k : m.kids) ks.push_back(k.first);
    std::sort(ks.begin(), ks.end(), [&](const std::string& a, const std::string& b) { return !ordered(b, a, ints, false); });
    std::string flat;
    uint32_t c = ks.size();
    for (int sh = 24; sh >= 0; sh -= 8) flat += (char)(c >> sh);
    for (size_t i : nearly(s, ks.size())) { flat += ks[i]; flat += std::string(5, '\0'); }
    K->kvtree_unpack(flat.data(), h);
  } else h.h = (K->kvtree_delete(&h.h), build(&m, &r));
  bool desc = s.chance(1, 2);
  x.note("%zu %s keys (style %d%s), %s", m.kids.size(), ints ? "int" : "string", style, near ? ", nearly sorted" : "", desc ? "descending" : "ascending");
  int dir = desc ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING;
  REQUIRE((ints ? K->kvtree_sort_int(h, dir) : K->kvtree_sort(h, dir)) == KVTREE_SUCCESS, "sort fails");
  check_order(h, &m, ints, desc, "after sort");
  if (ints) check_list(h, &m);
  require_equal(h, &m, "tree after sort");
  x.nontrivial();
}

Prop pbt::prop = {
  "T06", "exploration",
  "case = rounds of insertions, a sort of a generated kind and direction, and later lookups/removals; order, key set, subtree identity and integer list are "
  "checked against the model; non-trivial: at least 3 keys and the sort moved some (history), any wide case",
  {{"history", history, 150000, 2000000}, {"wide", wide, 1125, 10000}},
  {"integer sorts and lists are used on keys that are decimal ints"},
};
