// Printed trees show every key once, at its depth, in order.
#include "capture.hpp"

static TreeCfg cfg(Src& s) {
  TreeCfg c;
  c.maxnodes = s.chance(1, 10) ? 200 : 30;
  c.big = 300000; c.bigdeep = 1200; c.bigrate = 500; c.longrate = 40;
  c.nulls = s.chance(1, 4);
  if (s.chance(1, 12)) c.maxdeep = 900;
  if (s.chance(1, 20)) c.maxwide = 2000;
  return c;
}
static int gen_indent(Src& s) {
  switch (s.weighted({5, 4, 2, 1})) {
    case 0: return 0;
    case 1: return (int)s.draw(40);
    case 2: return (int)s.range(1000, 1040);
    default: return (int)s.draw(5000);
  }
}
// key/value pairs to make that mode interesting
static void add_pairs(Src& s, T* t) {
  size_t n = s.draw(6);
  for (size_t i = 0; i < n; i++) {
    T* at = model_descend(s, t);
    std::string k = pick_key(s, at);
    T* v = new T;
    at->put(k, v);
    v->put(gen_key(s), s.chance(1, 4) ? nullptr : new T);
    if (s.chance(1, 5)) v->put(gen_key(s), new T);
    if (s.chance(1, 6) && v->kids.begin()->second) v->kids.begin()->second->put("deep", new T);
  }
}
static void print(Src& s, Ctx& x) {
  TP t = gen_tree(s, cfg(s));
  add_pairs(s, t.get());
  bool null = s.chance(1, 60);
  Rng o(s.seed32());
  H h(null ? nullptr : build(t.get(), &o));
  int indent = gen_indent(s);
  int how = (int)s.draw(2);
  bool keyval = how == 2;
  x.note("%s, indent %d, %s", how == 0 ? "kvtree_print" : how == 1 ? "tree mode" : "key/value mode", indent, null ? "NULL" : show(t.get()).c_str());
  x.label(keyval ? "key/value mode" : "tree mode");
  if (indent + 2 * depth(t.get()) >= 1024) x.label("indent beyond 1024");
  std::vector<Line> want;
  expected_lines(h, indent, keyval, want);
  std::string before = h.h ? snapshot(h) : "";
  std::string got = capture([&]() {
    if (how == 0) K->kvtree_print(h, indent); else K->kvtree_print_mode(h, indent, keyval ? KVTREE_PRINT_KEYVAL : KVTREE_PRINT_TREE);
  });
  match_lines(got, want, how == 2 ? "key/value mode" : "tree mode");
  if (h.h) REQUIRE(snapshot(h) == before, "printing changed the tree");
  label_tree(x, t.get());
  if (nodes(t.get()) >= 3) x.nontrivial();
}
static void log_(Src& s, Ctx& x) {
  TreeCfg c = cfg(s);
  c.key.newline = false;
  TP t = gen_tree(s, c);
  Rng o(s.seed32());
  H h(build(t.get(), &o));
  int indent = gen_indent(s), level = (int)s.draw(3);
  x.note("log, indent %d, %s", indent, show(t.get()).c_str());
  std::vector<Line> want;
  expected_lines(h, indent, false, want);
  std::string got = capture([&]() { K->kvtree_log(h, level, indent); });
  // every message starts with the name of the library, version and host
  char host[256] = "";
  gethostname(host, sizeof host - 1);
  std::string text, mark = std::string(": ") + host + ": ";
  for (size_t at = 0; at < got.size();) {
    size_t e = got.find('\n', at);
    if (e == std::string::npos) e = got.size();
    std::string l = got.substr(at, e - at);
    at = e + 1;
    if (l.empty()) continue;  // messages end in an extra newline
    if (l.compare(0, 6, "KVTree")) FAILK("log prefix", "log line without prefix: %s", quote(l).c_str());
    size_t m = l.find(mark);
    REQUIRE(m != std::string::npos, "log line without host name: %s", quote(l).c_str());
    text += l.substr(m + mark.size()) + "\n";
  }
  match_lines(text, want, "log");
  x.label("log");
  if (nodes(t.get()) >= 3) x.nontrivial();
}

Prop pbt::prop = {
  "P01", "exploration",
  "case = tree (also hundreds of levels deep or thousands of keys wide, key/value pairs mixed in, any key bytes) printed in tree or key/value mode or logged, at "
  "indents from 0 to 5000; output captured and compared line by line with the lines prescribed for the tree in its iteration order; non-trivial: at least 3 nodes",
  {{"print", print, 256000, 2560000}, {"log", log_, 80000, 800000}},
  {"keys without newline for the log variant", "an extra line 'NULL LIST' below a key without subtree is accepted", "indent >= 0"},
};
