// Merging is a deep union that copies and leaves the source alone.
#include "ops.hpp"

static void check_merge(Src& s, Ctx& x, kvtree* a, T* ma, kvtree* b, const T* mb) {
  std::string sb = snapshot(b);
  int rc = K->kvtree_merge(a, b);
  REQUIRE(rc == KVTREE_SUCCESS, "merge returns %d", rc);
  merge(ma, mb);
  require_equal(a, ma, "merged tree");
  REQUIRE(snapshot(b) == sb, "merge changed its source");
}
static void overlap_label(Ctx& x, const T* a, const T* b) {
  bool both = false, da = false, db = false;
  for (auto& k : a->kids) if (b->has(k.first)) both = true; else da = true;
  for (auto& k : b->kids) if (!a->has(k.first)) db = true;
  if (both && da && db) { x.label("partial overlap"); x.nontrivial(); }
  else if (both) x.label("overlap");
  if (both) for (auto& k : a->kids) if (b->has(k.first)) {
    const T* sb = ((T*)b)->at(k.first);
    if (!k.second && sb && !sb->kids.empty()) { x.label("NULL meets subtree"); x.nontrivial(); }
    if (k.second && !k.second->kids.empty() && !sb) { x.label("subtree meets NULL"); x.nontrivial(); }
  }
}
static void pair_case(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxwide = 300; c.maxdeep = 600;
  TP ma = gen_tree(s, c);
  TP mb = s.chance(2, 3) ? related(s, ma.get(), c) : gen_tree(s, c);
  if (s.chance(1, 2)) std::swap(ma, mb);
  Rng ra(s.seed32()), rb(s.seed32());
  H a(build(ma.get(), &ra)), b(build(mb.get(), &rb));
  x.note("A = %s", show(ma.get()).c_str());
  x.note("B = %s", show(mb.get()).c_str());
  label_tree(x, mb.get());
  overlap_label(x, ma.get(), mb.get());
  check_merge(s, x, a, ma.get(), b, mb.get());
  // again: nothing changes
  std::string sa = snapshot(a);
  check_merge(s, x, a, ma.get(), b, mb.get());
  REQUIRE(snapshot(a) == sa, "a second merge of the same tree changed the result");
  // empty and NULL sources
  H e(K->kvtree_new());
  REQUIRE(K->kvtree_merge(a, e) == KVTREE_SUCCESS && K->kvtree_merge(a, nullptr) == KVTREE_SUCCESS, "merge of an empty tree fails");
  REQUIRE(snapshot(a) == sa, "merge of an empty tree changed the destination");
  // nothing is shared
  switch (s.draw(3)) {
    case 0: x.note("delete B"); K->kvtree_delete(&b.h); break;
    case 1: x.note("change B"); edit(s, b, mb.get(), 4); break;
    case 2: x.note("change A"); edit(s, a, ma.get(), 4); break;
    default: x.note("delete A"); K->kvtree_delete(&a.h); break;
  }
  if (a.h) require_equal(a, ma.get(), "destination after a change elsewhere");
  if (b.h) require_equal(b, mb.get(), "source after a change elsewhere");
}
// several sources merged one after another; also between subtrees of one tree
static void chain_case(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = 30;
  c.big = 1000000; c.bigdeep = 30000; c.bigwide = 10000; c.bigrate = 800;
  TP base = gen_tree(s, c);
  T m;
  H a(K->kvtree_new());
  size_t n = 2 + s.draw(4);
  std::vector<TP> models;
  for (size_t i = 0; i < n; i++) {
    TP mb = related(s, base.get(), c);
    x.note("merge %s", show(mb.get()).c_str());
    Rng r(s.seed32());
    H b(build(mb.get(), &r));
    if (i) overlap_label(x, &m, mb.get());
    check_merge(s, x, a, &m, b, mb.get());
  }
  // between two subtrees of one tree
  if (m.kids.size() >= 2) {
    auto i = m.kids.begin(), j = std::next(m.kids.begin(), 1 + s.draw(m.kids.size() - 2));
    kvtree *ha = K->kvtree_get(a, i->first.c_str()), *hb = K->kvtree_get(a, j->first.c_str());
    if (ha && hb) {
      x.note("merge subtree %s into sibling %s", quote(j->first).c_str(), quote(i->first).c_str());
      check_merge(s, x, ha, i->second, hb, j->second);
      require_equal(a, &m, "tree after a merge between siblings");
      x.label("siblings");
    }
  }
}
static void big_case(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = 400; c.maxwide = 1500; c.maxdeep = 3000;
  TP ma = gen_tree(s, c), mb = s.chance(1, 2) ? gen_tree(s, c) : related(s, ma.get(), c, 60);
  Rng ra(s.seed32());
  H a(build(ma.get(), &ra)), b(build(mb.get()));
  x.note("A: %zu nodes, depth %zu; B: %zu nodes, depth %zu", nodes(ma.get()), depth(ma.get()), nodes(mb.get()), depth(mb.get()));
  overlap_label(x, ma.get(), mb.get());
  label_tree(x, mb.get());
  check_merge(s, x, a, ma.get(), b, mb.get());
  K->kvtree_delete(&b.h);
  require_equal(a, ma.get(), "destination after deletion of the source");
}

Prop pbt::prop = {
  "T02", "exploration",
  "case = two (or a chain of) generated trees, mostly derived from each other, merged and compared with the union of the models; source order, "
  "idempotence and independence checked; non-trivial: the trees share a key and each has one of its own, or a NULL subtree meets a filled one",
  {{"pair", pair_case, 48000, 990000}, {"chain", chain_case, 24000, 480000}, {"big", big_case, 450, 9000}},
  {"keys are non-NULL NUL-terminated strings"},
};
