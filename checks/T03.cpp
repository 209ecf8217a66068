// Key/value-pair helpers create, find and prune exactly one pair.
#include "ops.hpp"

static void history(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = 14;
  TP m = s.chance(1, 2) ? gen_tree(s, c) : TP(new T);
  Rng r(s.seed32());
  H h(build(m.get(), &r));
  x.note("start %s", show(m.get()).c_str());
  std::vector<std::string> pool;
  size_t n = 1 + s.size(40);
  int pruned = 0, kept = 0, again = 0;
  for (size_t i = 0; i < n; i++) {
    Pos p = descend(s, Pos{h, m.get()}, 2);
    std::string key = pick_key(s, p.t, c.key, &pool);
    bool useint = s.chance(2, 5);
    int iv = 0;
    std::string val;
    T* sub = p.t->at(key);
    if (useint) {
      iv = gen_int(s);
      if (sub && !sub->kids.empty() && s.chance(1, 2)) {
        auto it = sub->kids.begin();
        std::advance(it, s.draw(sub->kids.size() - 1));
        if (str_of_int(atoi(it->first.c_str())) == it->first) iv = atoi(it->first.c_str());
      }
      val = str_of_int(iv);
    } else {
      T none;
      val = pick_key(s, sub ? sub : &none, c.key, &pool);
    }
    const char *k = key.c_str(), *v = val.c_str();
    bool present = sub && sub->has(val);
    switch (s.weighted({5, 4, 2})) {
      case 0: {
        x.note("set_kv%s(%s, %s)", useint ? "_int" : "", quote(key).c_str(), quote(val).c_str());
        kvtree* before = present ? K->kvtree_get(K->kvtree_get(p.h, k), v) : nullptr;
        std::string sb = before ? snapshot(before) : "";
        kvtree* got = useint ? K->kvtree_set_kv_int(p.h, k, iv) : K->kvtree_set_kv(p.h, k, v);
        REQUIRE(got, "set_kv returns NULL");
        T* msub = p.t->sub(key);
        msub->sub(val);
        REQUIRE(got == K->kvtree_get(K->kvtree_get(p.h, k), v), "set_kv returns something else than the subtree of the pair");
        if (before) {
          again++;
          REQUIRE(got == before, "setting an existing pair again returns another subtree");
          REQUIRE(snapshot(got) == sb, "setting an existing pair again changed what is below it");
        }
        if (msub->kids.size() > 1) kept++;
        if (s.chance(1, 3)) {  // put something below the pair
          std::string b = gen_key(s);
          K->kvtree_set(got, b.c_str(), K->kvtree_new());
          msub->sub(val)->put(b, new T);
        }
        break;
      }
      case 1: {
        x.note("unset_kv%s(%s, %s)", useint ? "_int" : "", quote(key).c_str(), quote(val).c_str());
        int rc = useint ? K->kvtree_unset_kv_int(p.h, k, iv) : K->kvtree_unset_kv(p.h, k, v);
        REQUIRE(rc == KVTREE_SUCCESS, "unset_kv returns %d", rc);
        if (sub) { sub->erase(val); if (present && !sub->kids.empty()) kept++; }
        if (p.t->has(key) && (!sub || sub->kids.empty())) { p.t->erase(key); if (present) pruned++; }
        break;
      }
      default: break;
    }
    kvtree* q = useint ? K->kvtree_get_kv_int(p.h, k, iv) : K->kvtree_get_kv(p.h, k, v);
    T* ms = p.t->at(key);
    T* mv = ms ? ms->at(val) : nullptr;
    REQUIRE((q != nullptr) == (mv != nullptr), "get_kv(%s, %s) finds %s", quote(key).c_str(), quote(val).c_str(), q ? "a pair that is not there" : "nothing");
    if (q) REQUIRE(q == K->kvtree_get(K->kvtree_get(p.h, k), v), "get_kv returns another subtree");
    // the other spelling agrees
    if (useint) REQUIRE(K->kvtree_get_kv(p.h, k, v) == q, "integer and string lookups differ for %d", iv);
    else if (val == str_of_int(atoi(v))) REQUIRE(K->kvtree_get_kv_int(p.h, k, atoi(v)) == q, "integer and string lookups differ for %s", v);
    require_equal(h, m.get(), "tree differs from the model");
  }
  if (pruned) x.label("pruned the last value");
  if (kept) x.label("key with several values");
  if (again) x.label("set an existing pair");
  if ((pruned || again) && kept) x.nontrivial();
}
// one key, many integer values
static void many(Src& s, Ctx& x) {
  H h(K->kvtree_new());
  T m;
  m.put("other", new T);
  K->kvtree_set_kv_int(h, "other", 3);
  m.sub("other")->sub("3");
  size_t n = 1 + s.draw(200);
  std::vector<int> vals;
  for (size_t i = 0; i < n; i++) {
    int v = gen_int(s);
    vals.push_back(v);
    kvtree* g = K->kvtree_set_kv_int(h, "k", v);
    REQUIRE(g && g == K->kvtree_get_kv(h, "k", str_of_int(v).c_str()), "set_kv_int(%d)", v);
    m.sub("k")->sub(str_of_int(v));
  }
  x.note("%zu integer values under one key", n);
  require_equal(h, &m, "tree differs from the model");
  while (!vals.empty()) {
    size_t at = s.draw(vals.size() - 1);
    int v = vals[at];
    vals.erase(vals.begin() + at);
    if (s.chance(1, 2)) K->kvtree_unset_kv_int(h, "k", v); else K->kvtree_unset_kv(h, "k", str_of_int(v).c_str());
    if (T* t = m.at("k")) { t->erase(str_of_int(v)); if (t->kids.empty()) m.erase("k"); }
    REQUIRE(!K->kvtree_get_kv_int(h, "k", v), "value %d remains", v);
    REQUIRE((K->kvtree_get(h, "k") != nullptr) == m.has("k"), "the key is %s with %zu values left", m.has("k") ? "gone" : "still there", m.has("k") ? m.at("k")->kids.size() : 0);
    if (vals.size() % 8 == 0) require_equal(h, &m, "tree differs from the model");
  }
  require_equal(h, &m, "tree differs from the model");
  if (n > 3) x.nontrivial();
}
// every power-of-two neighbourhood and random ints agree with their text
static void ints(Src& s, Ctx& x) {
  for (int i = 0; i < 60; i++) {
    int v = gen_int(s);
    H h(K->kvtree_new());
    std::string t = fmt("%d", v);
    kvtree* g = K->kvtree_set_kv_int(h, "k", v);
    REQUIRE(g && K->kvtree_get_kv(h, "k", t.c_str()) == g, "set_kv_int(%d) does not create the value %s", v, t.c_str());
    REQUIRE(K->kvtree_size(h) == 1 && K->kvtree_size(K->kvtree_get(h, "k")) == 1, "set_kv_int(%d) creates more than a pair", v);
    int other = gen_int(s);
    if (other != v) {
      REQUIRE(!K->kvtree_get_kv_int(h, "k", other), "%d is found where only %d was set", other, v);
      K->kvtree_unset_kv_int(h, "k", other);
      REQUIRE(K->kvtree_get_kv_int(h, "k", v) == g, "unsetting %d removed %d", other, v);
    }
    K->kvtree_unset_kv_int(h, "k", v);
    REQUIRE(K->kvtree_size(h) == 0, "key remains after its only value %d was unset", v);
  }
  x.nontrivial();
}

Prop pbt::prop = {
  "T03", "exploration",
  "case = history of pair operations on a generated tree compared with a nested-map model after each step; non-trivial: some key held several values and a "
  "pair was pruned or set again (history), more than 3 values (many), any ints case",
  {{"history", history, 384000, 2640000}, {"many", many, 36000, 240000}, {"ints", ints, 36000, 240000}},
  {"keys and values are non-NULL NUL-terminated strings"},
};
