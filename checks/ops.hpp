// Parallel walking of a real tree and its model.
#pragma once
#include <algorithm>
#include "kv.hpp"
using namespace pbt;

struct Pos {
  kvtree* h;
  T* t;
};
// key biased towards the existing ones of a level
inline std::string pick_key(Src& s, const T* t, const KeyCfg& c = KeyCfg(), std::vector<std::string>* pool = nullptr) {
  size_t n = t ? t->kids.size() : 0;
  if (n && s.chance(3, 5)) {
    auto it = t->kids.begin();
    std::advance(it, s.draw(n - 1));
    if (it->first.size() <= c.maxlen && (c.empty || !it->first.empty())) return it->first;
  }
  std::string k = gen_key(s, c, pool);
  if (pool && pool->size() < 100 && k.size() < 3000) pool->push_back(k);
  return k;
}
// walk down from a root; every visited level has a real tree
inline Pos descend(Src& s, Pos p, unsigned maxsteps = 4) {
  for (unsigned i = 0; i < maxsteps && !p.t->kids.empty() && s.chance(1, 2); i++) {
    auto it = p.t->kids.begin();
    std::advance(it, s.draw(p.t->kids.size() - 1));
    kvtree* sub = K->kvtree_get(p.h, it->first.c_str());
    if (!it->second) {
      REQUIRE(!sub, "key %s: a subtree where NULL was set", quote(it->first).c_str());
      break;
    }
    REQUIRE(sub, "key %s lost its subtree", quote(it->first).c_str());
    p = Pos{sub, it->second};
  }
  return p;
}
inline void free_elem(kvtree_elem* e) {
  if (!e) return;
  K->kvtree_delete(&e->hash);
  free(e->key);
  free(e);
}
inline kvtree_elem* nth_elem(kvtree* h, size_t n) {
  kvtree_elem* e = K->kvtree_elem_first(h);
  while (n-- && e) e = K->kvtree_elem_next(e);
  return e;
}
inline std::string str_of_int(int v) { char b[32]; snprintf(b, sizeof b, "%d", v); return b; }

// model-only edits: a tree related to t
inline void collect_keys(const T* t, std::vector<std::string>& out, size_t max = 60) {
  for (auto& k : t->kids) {
    if (out.size() >= max) return;
    if (k.first.size() < 3000) out.push_back(k.first);
    if (k.second) collect_keys(k.second, out, max);
  }
}
inline T* model_descend(Src& s, T* t, unsigned maxsteps = 4) {
  for (unsigned i = 0; i < maxsteps && !t->kids.empty() && s.chance(3, 5); i++) {
    auto it = t->kids.begin();
    std::advance(it, s.draw(t->kids.size() - 1));
    if (!it->second) break;
    t = it->second;
  }
  return t;
}
inline TP related(Src& s, const T* t, const TreeCfg& c = TreeCfg(), unsigned maxedits = 12) {
  TP r = clone(t);
  std::vector<std::string> pool;
  collect_keys(t, pool);
  size_t n = s.draw(maxedits);
  for (size_t i = 0; i < n; i++) {
    T* at = model_descend(s, r.get());
    std::string k = pick_key(s, at, c.key, &pool);
    switch (s.weighted({4, 3, 1, 2})) {
      case 0: { TreeCfg d = c; d.maxnodes = 6; d.maxwide = d.maxdeep = 0; at->put(k, gen_tree(s, d).release()); break; }
      case 1: at->erase(k); break;
      case 2: if (c.nulls) at->put(k, nullptr); break;
      default: at->sub(k)->put(gen_key(s, c.key, &pool), new T); break;
    }
  }
  return r;
}
// a few random changes applied to a real tree and its model
inline void edit(Src& s, kvtree* h, T* m, unsigned n, const KeyCfg& kc = KeyCfg()) {
  for (unsigned i = 0; i < n; i++) {
    Pos p = descend(s, Pos{h, m});
    std::string k = pick_key(s, p.t, kc);
    switch (s.weighted({3, 3, 1})) {
      case 0: K->kvtree_set(p.h, k.c_str(), K->kvtree_new()); p.t->put(k, nullptr); p.t->ref(k) = new T; break;
      case 1: K->kvtree_unset(p.h, k.c_str()); p.t->erase(k); break;
      default: K->kvtree_unset_all(p.h); for (auto& q : p.t->kids) delete q.second; p.t->kids.clear(); break;
    }
  }
}
