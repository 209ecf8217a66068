// Packing and unpacking reproduces the tree and uses the announced size.
#include "ops.hpp"

static TreeCfg cfg(Src& s) {
  TreeCfg c;
  c.maxnodes = s.chance(1, 12) ? 400 : 60;
  if (s.chance(1, 10)) c.maxwide = thorough ? 60000 : 6000;
  if (s.chance(1, 10)) c.maxdeep = thorough ? 20000 : 3000;
  return c;
}
static void one(Src& s, Ctx& x) {
  TP t = gen_tree(s, cfg(s));
  Rng o(s.seed32());
  H h(build(t.get(), &o));
  label_tree(x, t.get());
  x.note("tree %s", show(t.get()).c_str());
  size_t want = packed_size(t.get());
  size_t n = K->kvtree_pack_size(h);
  REQUIRE(n == want, "announced size %zu, the format needs %zu", n, want);
  // exact-size buffer: any byte outside is a crash
  char* b = (char*)malloc(n);
  struct F { char*& p; ~F() { free(p); } } f1{b};
  memset(b, 0xa5, n);
  size_t w = K->kvtree_pack(b, h);
  REQUIRE(w == n, "pack wrote %zu bytes, announced %zu", w, n);
  // every byte written: pack over another filling gives the same
  {
    std::string g(n + 64, '\x5a');
    size_t off = s.draw(31);
    size_t w2 = K->kvtree_pack(&g[off], h);
    REQUIRE(w2 == n, "packing again wrote %zu bytes, announced %zu", w2, n);
    REQUIRE(!memcmp(&g[off], b, n), "bytes depend on the buffer");
    for (size_t i = 0; i < g.size(); i++) if (i < off || i >= off + n) REQUIRE(g[i] == '\x5a', "byte outside the announced size written at %zd", (ssize_t)i - (ssize_t)off);
  }
  T back;
  REQUIRE(decode_body(b, n, &back) == n && equal(&back, t.get()), "the packed bytes are not the tree");
  H g(K->kvtree_new());
  size_t r = K->kvtree_unpack(b, g);
  REQUIRE(r == n, "unpack consumed %zu of %zu bytes", r, n);
  memset(b, 0xdd, n);  // no reference into the buffer is kept
  require_equal(g, t.get(), "unpacked tree differs");
  REQUIRE(K->kvtree_pack_size(g) == n, "size changes in a round trip");
  if (nodes(t.get()) >= 3) x.nontrivial();
}
// packed trees end to end
static void chain(Src& s, Ctx& x) {
  size_t k = 2 + s.draw(6);
  std::vector<TP> ts;
  std::vector<H*> hs;
  struct C { std::vector<H*>& v; ~C() { for (auto p : v) delete p; } } c{hs};
  TreeCfg tc;
  tc.maxnodes = 20;
  size_t total = 0, lead = s.draw(9);
  for (size_t i = 0; i < k; i++) {
    bool null = s.chance(1, 12);
    ts.push_back(null ? TP(new T) : i && s.chance(1, 3) ? related(s, ts[i - 1].get(), tc, 4) : gen_tree(s, tc));
    Rng o(s.seed32());
    hs.push_back(new H(null ? nullptr : build(ts[i].get(), &o)));
    x.note("%s", null ? "NULL" : show(ts[i].get(), 100).c_str());
    total += K->kvtree_pack_size(hs[i]->h);
  }
  char* b = (char*)malloc(lead + total);
  struct F { char* p; ~F() { free(p); } } f{b};
  size_t at = lead;
  std::vector<size_t> offs;
  for (size_t i = 0; i < k; i++) {
    offs.push_back(at);
    at += K->kvtree_pack(b + at, hs[i]->h);
  }
  REQUIRE(at == lead + total, "the sum of the sizes does not match");
  at = lead;
  for (size_t i = 0; i < k; i++) {
    REQUIRE(at == offs[i], "tree %zu is unpacked from offset %zu, was packed at %zu", i, at, offs[i]);
    H g(K->kvtree_new());
    at += K->kvtree_unpack(b + at, g);
    require_equal(g, ts[i].get(), "one of several packed trees differs");
  }
  REQUIRE(at == lead + total, "not everything consumed");
  x.label("several trees in one buffer");
  x.nontrivial();
}
// one tree packed again and again while it changes at any depth
static void again(Src& s, Ctx& x) {
  TreeCfg tc;
  tc.maxnodes = 30;
  TP t = gen_tree(s, tc);
  H h(build(t.get()));
  size_t n = 2 + s.draw(6);
  std::string what;
  for (size_t i = 0; i < n; i++) {
    size_t want = packed_size(t.get()), size = K->kvtree_pack_size(h);
    REQUIRE(size == want, "announced size %zu, the format needs %zu, after: %s", size, want, what.c_str());
    char* b = (char*)malloc(size);
    struct F { char* p; ~F() { free(p); } } f{b};
    size_t w = K->kvtree_pack(b, h);
    REQUIRE(w == size, "pack wrote %zu bytes, announced %zu, after: %s", w, size, what.c_str());
    T back;
    REQUIRE(decode_body(b, size, &back) == size && equal(&back, t.get()), "the packed bytes are not the tree, after: %s", what.c_str());
    H g(K->kvtree_new());
    size_t r = K->kvtree_unpack(b, g);
    REQUIRE(r == size, "unpack consumed %zu of %zu bytes, after: %s", r, size, what.c_str());
    require_equal(g, t.get(), "unpacked tree differs");
    // change one place
    T* at = t.get();
    kvtree* k = h;
    int depth = 0;
    while (s.chance(3, 4)) {
      std::vector<std::string> into;
      for (auto& e : at->kids) if (K->kvtree_get(k, e.first.c_str())) into.push_back(e.first);
      if (into.empty()) break;
      std::string key = s.pick(into);
      at = at->sub(key);
      k = K->kvtree_get(k, key.c_str());
      depth++;
    }
    std::string key = pick_key(s, at, tc.key);
    switch (s.draw(5)) {
      case 0: at->erase(key); K->kvtree_unset(k, key.c_str()); what += "unset"; break;
      case 1: { TP v = gen_tree(s, tc); K->kvtree_set(k, key.c_str(), build(v.get())); at->put(key, v.release()); what += "set"; break; }
      case 2: { TP v = gen_tree(s, tc); H o(build(v.get())); K->kvtree_merge(k, o); merge(at, v.get()); what += "merge"; break; }
      case 3: for (auto& e : at->kids) delete e.second; at->kids.clear(); K->kvtree_unset_all(k); what += "unset_all"; break;
      case 4: K->kvtree_sort(k, (int)s.draw(1)); what += "sort"; break;
      default: {  // same size, other content
        std::string other(key.size(), (char)('a' + s.draw(25)));
        at->erase(key); K->kvtree_unset(k, key.c_str());
        at->put(other, new T); K->kvtree_set(k, other.c_str(), K->kvtree_new());
        what += "rename";
      }
    }
    what += fmt(" at depth %d; ", depth);
    if (depth) x.label("changed below the top");
  }
  x.note("%s: %s", show(t.get(), 100).c_str(), what.c_str());
  x.nontrivial();
}

// counts and lengths around the powers of two; such trees are made by unpacking
static void big(Src& s, Ctx& x) {
  std::string body;
  T t;
  Rng r(s.seed32());
  size_t n;
  auto edge = [&](size_t e) { return s.chance(1, 2) ? e - 2 + s.draw(4) : e + s.draw(e / 4); };
  int kind = (int)s.weighted({4, 3, 2});
  switch (kind) {
    case 0: {  // many keys
      n = edge(s.pick(std::vector<size_t>{256, 32768, 65536, 65536, 131072}));
      T* at = s.chance(1, 2) ? &t : (t.put("above", new T), t.put("other", new T), t.at("above"));
      std::string pre = s.chance(1, 2) ? "" : gen_key(s);
      if (pre.size() > 100) pre.resize(100);
      for (size_t i = 0; i < n; i++) at->put(pre + str_of_int((int)i), r.below(16) ? nullptr : new T);
      break;
    }
    case 1: {  // long keys
      n = edge(s.pick(std::vector<size_t>{256, 1024, 4096, 32768, 65536, 1048576}));
      size_t k = 1 + s.draw(3);
      for (size_t i = 0; i < k; i++) { std::string key(n - i, (char)('a' + i)); t.put(key, new T); if (s.chance(1, 2)) t.at(key)->put("below", new T); }
      break;
    }
    default: {  // deep
      n = edge(s.pick(std::vector<size_t>{256, 4096, 32768}));
      T* at = &t;
      for (size_t i = 0; i < n; i++) { at->put("k", new T); if (i % 997 == 0) at->put("side", new T); at = at->at("k"); }
    }
  }
  static const char* const what[] = {"keys in one level", "bytes in a key", "levels"};
  x.note("%zu %s", n, what[kind]);
  x.label(what[kind]);
  encode_body(&t, body, &r);
  H h(K->kvtree_new());
  size_t c = K->kvtree_unpack(body.data(), h);
  REQUIRE(c == body.size(), "unpack consumed %zu of %zu bytes", c, body.size());
  require_equal(h, &t, "unpacked tree differs");
  size_t size = K->kvtree_pack_size(h);
  REQUIRE(size == body.size(), "announced size %zu, the format needs %zu", size, body.size());
  char* b = (char*)malloc(size);
  struct F { char* p; ~F() { free(p); } } f{b};
  memset(b, 0xa5, size);
  size_t w = K->kvtree_pack(b, h);
  REQUIRE(w == size, "pack wrote %zu bytes, announced %zu", w, size);
  T back;
  REQUIRE(decode_body(b, size, &back) == size && equal(&back, &t), "the packed bytes are not the tree");
  x.nontrivial();
}

Prop pbt::prop = {
  "S01", "exploration",
  "case = one tree (up to hundreds of nodes; sometimes thousands of keys in a level or thousands of levels) packed into an exactly sized buffer and unpacked "
  "again, 2-8 trees packed end to end, one tree packed again after each of up to 8 changes at any depth, or a tree with up to 160000 keys in a level, megabyte keys or 40000 levels; oracle: independent size, encoder and decoder; non-trivial: at least 3 nodes, any other case",
  {{"one", one, 96000, 1920000}, {"chain", chain, 48000, 960000}, {"again", again, 24000, 480000}, {"big", big, 240, 5000}},
  {"nesting fits the stack (1 GiB)"},
};
