// A tree behaves as a nested map.
#include "ops.hpp"

// agreement of every query with the model at one level
static void check_level(Pos p, const std::string& k) {
  size_t n = p.t->kids.size();
  REQUIRE(K->kvtree_size(p.h) == (int)n, "size is %d, the map has %zu keys", K->kvtree_size(p.h), n);
  auto it = p.t->kids.find(k);
  kvtree* g = K->kvtree_get(p.h, k.c_str());
  kvtree_elem* e = K->kvtree_elem_get(p.h, k.c_str());
  if (it == p.t->kids.end()) {
    REQUIRE(!g && !e, "absent key %s is found", quote(k).c_str());
    REQUIRE(!K->kvtree_elem_get_first_val(p.h, k.c_str()), "value of an absent key");
    return;
  }
  REQUIRE(e, "key %s is not found", quote(k).c_str());
  REQUIRE(K->kvtree_elem_key(e) && k == K->kvtree_elem_key(e), "element of key %s has another key", quote(k).c_str());
  REQUIRE(K->kvtree_elem_hash(e) == g, "get and element disagree for key %s", quote(k).c_str());
  REQUIRE((g != nullptr) == (it->second != nullptr), "key %s: subtree presence differs", quote(k).c_str());
  char* fv = K->kvtree_elem_get_first_val(p.h, k.c_str());
  size_t m = it->second ? it->second->kids.size() : 0;
  REQUIRE((fv != nullptr) == (m > 0), "first value of key %s with %zu values", quote(k).c_str(), m);
  if (fv) {
    REQUIRE(it->second->has(fv), "first value %s is not a key of the subtree", quote(fv).c_str());
    REQUIRE(K->kvtree_elem_key(K->kvtree_elem_first(g)) == std::string(fv), "first value is not the first key");
  }
}

struct Detached { kvtree* h; TP t; };

static void history(Src& s, Ctx& x, size_t maxops, const KeyCfg& kc) {
  H roots[3];
  TP models[3];
  int R = 1 + (int)s.draw(2);
  for (int i = 0; i < R; i++) { roots[i].h = K->kvtree_new(); models[i].reset(new T); }
  std::vector<std::string> pool;
  std::vector<std::pair<kvtree*, T*>> det;  // trees owned by the caller
  struct Clean {
    std::vector<std::pair<kvtree*, T*>>& d;
    ~Clean() { for (auto& p : d) { K->kvtree_delete(&p.first); delete p.second; } }
  } clean{det};
  size_t n = 1 + s.size(maxops - 1);
  size_t replaced = 0, removed = 0, deep = 0;
  for (size_t step = 0; step < n; step++) {
    int r = (int)s.draw(R - 1);
    Pos root{roots[r].h, models[r].get()};
    Pos p = descend(s, root);
    if (p.h != root.h) deep++;
    std::string k = pick_key(s, p.t, kc, &pool);
    switch (s.weighted({10, 3, 3, 2, 2, 1, 1, 2, 2, 2, 1})) {
      case 0: {  // set
        TP v;
        kvtree* vh = nullptr;
        switch (s.weighted({3, 1, 3, 2})) {
          case 0: v.reset(new T); vh = K->kvtree_new(); break;
          case 1: break;
          case 2: {
            TreeCfg c; c.maxnodes = 8; c.key = kc;
            v = gen_tree(s, c);
            vh = build(v.get());
            break;
          }
          default:
            if (!det.empty()) { vh = det.back().first; v.reset(det.back().second); det.pop_back(); }
            else { v.reset(new T); vh = K->kvtree_new(); }
        }
        if (p.t->has(k)) replaced++;
        x.note("set(root %d, %s, %s)", r, quote(k).c_str(), show(v.get(), 100).c_str());
        kvtree* got = K->kvtree_set(p.h, k.c_str(), vh);
        REQUIRE(got == vh, "set returns %p, the subtree given is %p", (void*)got, (void*)vh);
        p.t->put(k, nullptr);
        p.t->ref(k) = v.release();
        REQUIRE(K->kvtree_get(p.h, k.c_str()) == vh, "get does not return the subtree just set");
        break;
      }
      case 1: x.note("get(root %d, %s)", r, quote(k).c_str()); break;  // lookups happen below
      case 2: {  // unset
        x.note("unset(root %d, %s)", r, quote(k).c_str());
        if (p.t->has(k)) removed++;
        int rc = K->kvtree_unset(p.h, k.c_str());
        REQUIRE(rc == KVTREE_SUCCESS, "unset returns %d", rc);
        p.t->erase(k);
        break;
      }
      case 3: {  // extract
        x.note("extract(root %d, %s)", r, quote(k).c_str());
        kvtree* before = K->kvtree_get(p.h, k.c_str());
        kvtree* got = K->kvtree_extract(p.h, k.c_str());
        REQUIRE(got == before, "extract returns another subtree than get");
        if (p.t->has(k)) removed++;
        T* m = p.t->at(k);
        if (p.t->has(k)) { p.t->kids.erase(k); }
        if (got) {
          require_equal(got, m, "extracted subtree");
          det.push_back({got, m});
        } else delete m;
        break;
      }
      case 4: {  // extract element
        x.note("elem_extract(root %d, %s)", r, quote(k).c_str());
        kvtree_elem* e = K->kvtree_elem_extract(p.h, k.c_str());
        REQUIRE((e != nullptr) == p.t->has(k), "elem_extract of key %s finds %s", quote(k).c_str(), e ? "one" : "none");
        if (e) { REQUIRE(k == e->key, "wrong element extracted"); std::string d = diff(e->hash, p.t->at(k)); REQUIRE(d.empty(), "extracted element: %s", d.c_str()); removed++; }
        free_elem(e);
        p.t->erase(k);
        break;
      }
      case 5: {  // extract element by int
        int v = gen_int(s);
        if (s.chance(1, 2) && !p.t->kids.empty()) v = atoi(k.c_str());
        std::string ks = str_of_int(v);
        x.note("elem_extract_int(root %d, %d)", r, v);
        kvtree_elem* e = K->kvtree_elem_extract_int(p.h, v);
        REQUIRE((e != nullptr) == p.t->has(ks), "elem_extract_int(%d) finds %s", v, e ? "one" : "none");
        if (e) { REQUIRE(ks == e->key, "wrong element extracted"); removed++; }
        free_elem(e);
        p.t->erase(ks);
        break;
      }
      case 6: {  // extract by address
        if (p.t->kids.empty()) break;
        kvtree_elem* e = nth_elem(p.h, s.draw(p.t->kids.size() - 1));
        REQUIRE(e, "iteration is shorter than the map");
        std::string ks = K->kvtree_elem_key(e);
        x.note("elem_extract_by_addr(root %d, %s)", r, quote(ks).c_str());
        kvtree_elem* g = K->kvtree_elem_extract_by_addr(p.h, e);
        REQUIRE(g == e, "extract_by_addr returns another element");
        REQUIRE(ks == e->key, "key changed by extraction");
        free_elem(e);
        REQUIRE(p.t->has(ks), "iteration shows a key that the map does not have");
        p.t->erase(ks);
        removed++;
        break;
      }
      case 7: {  // delete some keys while iterating
        unsigned mod = 1 + (unsigned)s.draw(3);
        x.note("remove every %u-th element while iterating (root %d)", mod, r);
        kvtree_elem* e = K->kvtree_elem_first(p.h);
        std::vector<std::string> gone;
        for (unsigned i = 0; e; i++) {
          kvtree_elem* nx = K->kvtree_elem_next(e);
          if (i % mod == 0) {
            gone.push_back(K->kvtree_elem_key(e));
            if (s.chance(1, 2)) free_elem(K->kvtree_elem_extract_by_addr(p.h, e));
            else K->kvtree_unset(p.h, gone.back().c_str());
          }
          e = nx;
        }
        for (auto& g : gone) { p.t->erase(g); removed++; }
        break;
      }
      case 8: {  // unset all, rarely
        if (s.chance(3, 4)) break;
        x.note("unset_all(root %d)", r);
        REQUIRE(K->kvtree_unset_all(p.h) == KVTREE_SUCCESS, "unset_all fails");
        for (auto& q : p.t->kids) delete q.second;
        p.t->kids.clear();
        REQUIRE(!K->kvtree_elem_first(p.h), "elements remain after unset_all");
        break;
      }
      case 9: {  // many ints
        size_t cnt = s.size(120);
        int base = (int)s.draw(200);
        x.note("set %zu integer keys from %d (root %d)", cnt, base, r);
        for (size_t i = 0; i < cnt; i++) {
          std::string ks = str_of_int(base + (int)i * 3);
          kvtree* v = K->kvtree_new();
          REQUIRE(K->kvtree_set(p.h, ks.c_str(), v) == v, "set returns another subtree");
          p.t->put(ks, new T);
        }
        break;
      }
      default: {  // delete a whole root
        x.note("delete(root %d)", r);
        REQUIRE(K->kvtree_delete(&roots[r].h) == KVTREE_SUCCESS, "delete fails");
        REQUIRE(!roots[r].h, "delete leaves the pointer set");
        roots[r].h = K->kvtree_new();
        models[r].reset(new T);
        p = Pos{roots[r].h, models[r].get()};
      }
    }
    check_level(p, k);
    for (int i = 0; i < R; i++) require_equal(roots[i], models[i].get(), "tree differs from the map");
  }
  for (auto& d : det) require_equal(d.first, d.second, "extracted tree changed later");
  if (replaced) x.label("replaced a key");
  if (removed) x.label("removed a key");
  if (deep) x.label("operated below the root");
  if (n >= 3 && (replaced || removed)) x.nontrivial();
}

static void small_hist(Src& s, Ctx& x) {
  KeyCfg kc;
  kc.maxlen = 5000;
  history(s, x, 60, kc);
}
static void long_hist(Src& s, Ctx& x) {
  KeyCfg kc;
  kc.longw = 0;
  history(s, x, 400, kc);
}
// key strings that differ in one place only
static void near_keys(Src& s, Ctx& x) {
  H h(K->kvtree_new());
  T m;
  size_t len = s.weighted({3, 2, 1}) == 0 ? 1 + s.draw(12) : 1 + s.draw(70000);
  Rng r(s.seed32());
  std::string base(len, 'a');
  for (auto& c : base) c = (char)(1 + r.below(255));
  size_t n = 2 + s.draw(20);
  x.note("%zu keys near a base key of %zu bytes", n, len);
  std::vector<std::string> ks;
  for (size_t i = 0; i < n; i++) {
    std::string k = base;
    switch (s.draw(3)) {
      case 0: { size_t at = s.chance(1, 2) ? len - 1 : s.draw(len - 1); k[at] = (char)(1 + s.draw(254)); break; }
      case 1: k.resize(s.draw(len)); break;
      case 2: k += (char)(1 + s.draw(254)); break;
      default: k[0] ^= 0x20; if (!k[0]) k[0] = 1; break;
    }
    ks.push_back(k);
    kvtree* v = K->kvtree_new();
    K->kvtree_set(h, k.c_str(), v);
    kvtree* mark = K->kvtree_new();
    K->kvtree_set(v, str_of_int((int)i).c_str(), mark);
    T* tv = new T; tv->put(str_of_int((int)i), new T);
    m.put(k, tv);
    require_equal(h, &m, "tree differs from the map");
  }
  for (size_t i = 0; i < n; i++) {
    const std::string& k = ks[s.draw(n - 1)];
    check_level({h, &m}, k);
    if (s.chance(1, 2)) { K->kvtree_unset(h, k.c_str()); m.erase(k); check_level({h, &m}, k); }
  }
  require_equal(h, &m, "tree differs from the map");
  x.nontrivial();
}
// thousands of keys in one level
static void wide(Src& s, Ctx& x) {
  H h(K->kvtree_new());
  T m;
  size_t n = 200 + s.draw(thorough ? 6000 : 2500);
  Rng r(s.seed32());
  unsigned range = (unsigned)(n / (1 + s.draw(3)) + 1);
  x.note("%zu operations over %u keys in one level", n, range);
  for (size_t i = 0; i < n; i++) {
    std::string k = fmt("%x", (unsigned)r.below(range) * 2654435761u);
    unsigned op = (unsigned)r.below(8);
    if (op < 6) { kvtree* v = r.below(5) ? K->kvtree_new() : nullptr; REQUIRE(K->kvtree_set(h, k.c_str(), v) == v, "set returns another subtree"); m.put(k, nullptr); m.ref(k) = v ? new T : nullptr; }
    else if (op == 6) { K->kvtree_unset(h, k.c_str()); m.erase(k); }
    else { kvtree* e = K->kvtree_extract(h, k.c_str()); REQUIRE((e != nullptr) == (m.at(k) != nullptr), "extract of %s", k.c_str()); K->kvtree_delete(&e); m.erase(k); }
    if (r.below(200) == 0) check_level({h, &m}, k);
  }
  REQUIRE(K->kvtree_size(h) == (int)m.kids.size(), "size is %d, the map has %zu keys", K->kvtree_size(h), m.kids.size());
  std::string d = diff(h, &m, false);
  REQUIRE(d.empty(), "tree differs from the map: %s", d.c_str());
  x.nontrivial();
}
// one level with far more keys than anyone sets by hand
static void huge(Src& s, Ctx& x) {
  size_t n = s.chance(1, 3) ? 65500 + s.draw(100) : 3000 + s.draw(thorough ? 300000 : 120000);
  Rng r(s.seed32());
  T m;
  for (size_t i = 0; i < n; i++) m.kids[fmt("%x", (unsigned)i * 2654435761u)] = new T;
  H h(build(&m, &r));
  x.note("%zu keys in one level", n);
  REQUIRE(K->kvtree_size(h) == (int)n, "size is %d, the map has %zu keys", K->kvtree_size(h), n);
  auto where = [&]() -> std::string {  // a key at the start, the end or anywhere in iteration order
    size_t at = 0;
    switch (s.draw(2)) { case 0: at = s.draw(3); break; case 1: at = m.kids.size() - 1 - s.draw(3); break; default: at = s.draw(m.kids.size() - 1); }
    kvtree_elem* e = nth_elem(h, at);
    REQUIRE(e, "iteration ends before element %zu of %zu", at, m.kids.size());
    return K->kvtree_elem_key(e);
  };
  for (int i = 0; i < 8; i++) {
    std::string k = where();
    check_level({h, &m}, k);
    switch (s.draw(4)) {
      case 0: K->kvtree_unset(h, k.c_str()); m.erase(k); break;
      case 1: { kvtree* e = K->kvtree_extract(h, k.c_str()); REQUIRE((e != nullptr) == (m.at(k) != nullptr), "extract of %s", k.c_str()); K->kvtree_delete(&e); m.erase(k); break; }
      case 2: { kvtree* v = K->kvtree_new(); REQUIRE(K->kvtree_set(h, k.c_str(), v) == v, "set returns another subtree"); K->kvtree_set(v, "new", nullptr); m.put(k, nullptr); m.ref(k) = new T; m.at(k)->put("new", nullptr); break; }
      case 3: { k = fmt("new%d", i); K->kvtree_set(h, k.c_str(), nullptr); m.put(k, nullptr); break; }
      default: { kvtree_elem* e = K->kvtree_elem_extract(h, k.c_str()); REQUIRE(e && k == e->key, "elem_extract of %s", k.c_str()); free_elem(e); m.erase(k); break; }
    }
    check_level({h, &m}, k);
  }
  std::string d = diff(h, &m, false);
  REQUIRE(d.empty(), "tree differs from the map: %s", d.c_str());
  REQUIRE(K->kvtree_unset_all(h) == KVTREE_SUCCESS, "unset_all fails");
  REQUIRE(!K->kvtree_elem_first(h) && K->kvtree_size(h) == 0, "elements remain after unset_all of %zu keys", m.kids.size());
  x.nontrivial();
}
// deep chains: set, look up and delete at every level
static void deep(Src& s, Ctx& x) {
  H h(K->kvtree_new());
  size_t n = 1 + s.draw(thorough ? 20000 : 4000);
  x.note("chain of depth %zu", n);
  kvtree* at = h;
  std::vector<kvtree*> lv;
  for (size_t i = 0; i < n; i++) {
    lv.push_back(at);
    at = K->kvtree_set(at, str_of_int((int)(i % 7)).c_str(), K->kvtree_new());
    REQUIRE(at, "set fails at depth %zu", i);
  }
  kvtree* q = h;
  for (size_t i = 0; i < n; i++) { REQUIRE(q == lv[i] && K->kvtree_size(q) == 1, "level %zu changed", i); q = K->kvtree_get(q, str_of_int((int)(i % 7)).c_str()); }
  REQUIRE(q == at && K->kvtree_size(q) == 0, "innermost level changed");
  size_t cut = s.draw(n - 1);
  kvtree* sub = K->kvtree_extract(lv[cut], str_of_int((int)(cut % 7)).c_str());
  REQUIRE(sub == (cut + 1 < n ? lv[cut + 1] : at), "extract at level %zu", cut);
  REQUIRE(K->kvtree_size(lv[cut]) == 0, "key remains after extract");
  K->kvtree_delete(&sub);
  x.nontrivial();
}

Prop pbt::prop = {
  "T01", "exploration",
  "case = history of tree operations over adversarial keys on up to 3 trees and detached subtrees, compared with a nested map after each step; "
  "non-trivial: at least 3 operations with a replaced or removed key (histories), or any wide/huge/deep/near-key case; distinct by choice sequence",
  {{"history", small_hist, 54000, 1200000}, {"long-history", long_hist, 4200, 84000}, {"near-keys", near_keys, 9000, 180000}, {"wide", wide, 360, 4800}, {"huge", huge, 160, 2400}, {"deep", deep, 360, 3600}},
  {"keys are non-NULL NUL-terminated strings", "single-threaded use of a tree"},
};
