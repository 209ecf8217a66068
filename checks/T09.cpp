// Read-only operations never change the tree they are given.
#include <filesystem>
#include "capture.hpp"
#include "fault.hpp"
#include "mpih.hpp"

static TreeCfg cfg(unsigned n) {
  TreeCfg c;
  c.maxnodes = n;
  c.big = 300000; c.bigrate = 300; c.longrate = 30;
  c.maxwide = 60;
  c.maxdeep = 40;
  c.key.maxlen = 400;
  return c;
}
// keys, order and the addresses of all elements and subtrees
static void image(const kvtree* h, std::string& o, int depth = 0) {
  o += fmt("%p(", (const void*)h);
  for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) {
    std::string k = K->kvtree_elem_key(e);
    o += fmt("%p %p %zu:", (void*)e, (void*)K->kvtree_elem_key(e), k.size());
    o += k;
    image(K->kvtree_elem_hash(e), o, depth + 1);
  }
  o += ")";
}
static std::string image(const kvtree* h) { std::string o; image(h, o); return o; }
static std::string content(const kvtree* h) { return h ? snapshot(h) : "NULL"; }
static std::string sorted(const kvtree* h) { T* m = from_real(h).release(); std::string o = encode_file(m); delete m; return o; }

static std::string sorted_file(const std::string& p) { T m; return decode_file(slurp(p), &m) == 0 ? encode_file(&m) : "invalid"; }
struct Arg { std::string k1, k2; int num; uint64_t big; bool odd; };
enum { OPS = 27 };
static const char* const names[OPS] = {
  "get", "getf", "get_kv", "get_kv_int", "elem_get", "iteration", "elem_key_int", "first value", "get_val", "size", "list_int", "pack_size", "pack", "write_persist", "print", "print_mode", "log",
  "getters", "merge source", "sendq", "write_file", "write_fd", "write_with_lock", "write_close_unlock", "iteration of subtrees", "merge into itself copy", "get_str chain"};
static std::string one(int op, const kvtree* ch, const Arg& a, const std::string& path) {
  kvtree* h = (kvtree*)ch;
  const char *k1 = a.k1.c_str(), *k2 = a.k2.c_str();
  std::string o;
  switch (op) {
    case 0: return fmt("%p", (void*)K->kvtree_get(h, k1));
    case 1: return fmt("%p %p %p", (void*)K->kvtree_getf(h, "%s", k1), (void*)K->kvtree_getf(h, "%s %s", k1, k2), (void*)K->kvtree_getf(h, "%d %lu", a.num, (unsigned long)a.big));
    case 2: return fmt("%p", (void*)K->kvtree_get_kv(h, k1, k2));
    case 3: return fmt("%p", (void*)K->kvtree_get_kv_int(h, k1, a.num));
    case 4: return fmt("%p", (void*)K->kvtree_elem_get(h, k1));
    case 5: for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) o += fmt("%p %s;", (void*)e, K->kvtree_elem_key(e)); return o;
    case 6: for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) o += fmt("%d;", K->kvtree_elem_key_int(e)); return o;
    case 7: { char* v = K->kvtree_elem_get_first_val(h, k1); return v ? v : "none"; }
    case 8: { char* v = K->kvtree_get_val(h, k1); return v ? v : "none"; }
    case 9: return fmt("%d", K->kvtree_size(h));
    case 10: { int n, *v; K->kvtree_list_int(h, &n, &v); for (int i = 0; i < n; i++) o += fmt("%d ", v[i]); free(v); return o; }
    case 11: return fmt("%zu", K->kvtree_pack_size(h));
    case 12: { o.resize(K->kvtree_pack_size(h)); size_t n = K->kvtree_pack(&o[0], h); return o + fmt(" %zu", n); }
    case 13: { void* m = nullptr; size_t n = 0; K->kvtree_write_persist(&m, &n, h); o.assign((char*)m, n); free(m); return o; }
    case 14: return capture([&] { K->kvtree_print(h, a.num & 31); });
    case 15: return capture([&] { K->kvtree_print_mode(h, a.num & 31, a.odd ? KVTREE_PRINT_TREE : KVTREE_PRINT_KEYVAL); });
    case 16: return capture([&] { K->kvtree_log(h, a.odd ? 0 : 1, a.num & 31); });
    case 17: {
      unsigned long ul = 1, ul2 = 1; uLong cr = 1; int i = 1; int64_t ll = 1; double d = 1; void* p = nullptr; char* st = nullptr;
      int r[8] = {K->kvtree_util_get_bytecount(h, k1, &ul), K->kvtree_util_get_crc32(h, k1, &cr), K->kvtree_util_get_int(h, k1, &i), K->kvtree_util_get_unsigned_long(h, k1, &ul2), K->kvtree_util_get_str(h, k1, &st),
                  K->kvtree_util_get_int64(h, k1, &ll), K->kvtree_util_get_double(h, k1, &d), K->kvtree_util_get_ptr(h, k1, &p)};
      for (int q : r) o += fmt("%d ", q);
      return o + fmt("%lu %lu %d %lu %p %ld %.17g %p", ul, (unsigned long)cr, i, ul2, (void*)st, (long)ll, d, p);
    }
    case 18: { H d(K->kvtree_new()); K->kvtree_merge(d, h); return sorted(d); }
    case 19: { UseLib u(kv_load("mpi")); H q(K->kvtree_new()); K->kvtree_exchange_sendq(q, a.num, h); K->kvtree_exchange_sendq(q, a.num, h); return sorted(q); }
    case 20: K->kvtree_write_file(path.c_str(), h); return slurp(path);
    case 21: { int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); ssize_t n = K->kvtree_write_fd(path.c_str(), fd, h); close(fd); return slurp(path) + fmt("%zd", n); }
    case 22: K->kvtree_write_with_lock(path.c_str(), h); return slurp(path);
    case 23: { int fd = -1; H d(K->kvtree_new()); K->kvtree_lock_open_read(path.c_str(), &fd, d); K->kvtree_write_close_unlock(path.c_str(), &fd, h); return slurp(path); }
    case 24: for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) { kvtree* sub = K->kvtree_elem_hash(e); o += fmt("%d %p;", K->kvtree_size(sub), (void*)K->kvtree_elem_first(sub)); } return o;
    case 25: { H d(K->kvtree_new()); K->kvtree_merge(d, h); K->kvtree_sort(d, a.odd); K->kvtree_unset(d, k1); K->kvtree_merge(d, h); K->kvtree_unset_all(d); return ""; }
    default: { char* st = nullptr; kvtree* sub = K->kvtree_get(h, k1); K->kvtree_util_get_str(sub, k2, &st); return st ? st : "none"; }
  }
}
static void serial(Src& s, Ctx& x) {
  static const char* const variants[] = {"static", "flock", "fcntl"};
  int v = (int)s.draw(2);
  UseLib u(v == 0 ? kv_static() : kv_load(variants[v]));
  TP t = gen_tree(s, cfg(30));
  for (size_t i = s.draw(3); i > 0; i--) t->sub(gen_key(s, cfg(1).key))->sub(str_of_int(gen_int(s)));
  Rng order(s.seed32());
  H h(build(t.get(), &order));
  label_tree(x, t.get());
  if (s.chance(1, 3)) K->kvtree_sort(h, (int)s.draw(1));
  std::string path = scratch() + "/f";
  unlink(path.c_str());
  x.note("%s", show(t.get(), 200).c_str());
  size_t n = 1 + s.draw(9);
  struct Done { int op; Arg a; std::string result; };
  std::vector<Done> done;
  std::string before = image(h);
  for (size_t i = 0; i < n; i++) {
    if (s.chance(1, 8)) {  // an update
      std::string k;
      do k = pick_key(s, t.get(), cfg(1).key); while (k.size() > 900);
      switch (s.draw(3)) {
        case 0: K->kvtree_unset(h, k.c_str()); t->erase(k); break;
        case 1: K->kvtree_set(h, k.c_str(), K->kvtree_new()); t->put(k, new T); break;
        case 2: K->kvtree_sort(h, (int)s.draw(1)); break;
        default: K->kvtree_util_set_int(h, k.c_str(), 5); t->put(k, new T); t->sub(k)->sub("5");
      }
      x.note("update");
      done.clear();
      before = image(h);
      continue;
    }
    Done d;
    if (!done.empty() && s.chance(1, 2)) {
      const Done& old = s.pick(done);
      std::string again = one(old.op, h, old.a, path);
      REQUIRE(again == old.result, "%s gave %s and then %s", names[old.op], quote(old.result).c_str(), quote(again).c_str());
      d.op = old.op;
      x.label("repeated");
    } else {
      d.op = (int)s.draw(OPS - 1);
      do d.a.k1 = pick_key(s, t.get(), cfg(1).key); while (d.a.k1.size() > 900);
      T* sub = t->at(d.a.k1);
      do d.a.k2 = sub && s.chance(2, 3) ? pick_key(s, sub, cfg(1).key) : gen_key(s, cfg(1).key); while (d.a.k2.size() > 900);
      d.a.num = gen_int(s);
      d.a.big = s.draw(UINT64_MAX);
      d.a.odd = s.chance(1, 2);
      d.result = one(d.op, h, d.a, path);
      x.note("%s(%s, %s)", names[d.op], quote(d.a.k1, 30).c_str(), quote(d.a.k2, 30).c_str());
      x.label(names[d.op]);
      done.push_back(d);
    }
    std::string now = image(h);
    REQUIRE(now == before, "%s changed the tree from %s to %s", names[d.op], quote(before, 400).c_str(), quote(now, 400).c_str());
  }
  // whatever was read, the tree is still what the updates made of it
  require_equal(h, t.get(), "the tree");
  unlink(path.c_str());
  if (!t->kids.empty()) x.nontrivial();
}
static void collective(Src& s, Ctx& x) {
  World w = make_world(s, x, 9);
  std::vector<TP> t;
  std::vector<uint32_t> ord;
  for (int i = 0; i < w.n; i++) { t.push_back(gen_tree(s, cfg(8))); ord.push_back(s.seed32()); }
  // messages for an exchange: any ranks
  std::vector<TP> q;
  std::vector<std::vector<uint32_t>> dest(w.n);
  for (int i = 0; i < w.n; i++) {
    q.push_back(TP(new T));
    for (size_t k = s.draw(3); k > 0; k--) q[i]->put(str_of_int((int)s.draw(w.n - 1)), s.chance(1, 5) ? new T : gen_tree(s, cfg(5)).release());
  }
  std::vector<int> script;
  for (size_t n = 1 + s.draw(4); n > 0; n--) script.push_back((int)s.draw(5));
  int root = (int)s.draw(w.n - 1), shift = (int)s.draw(w.n - 1);
  bool left = s.chance(1, 2);
  static const char* const nm[] = {"send", "sendrecv", "bcast", "exchange", "exchange_direction", "write_gather"};
  x.note("%s, root %d, shift %d:", show_comm(w).c_str(), root, shift);
  for (int o : script) { x.note("%s", nm[o]); x.label(nm[o]); }
  std::string dir = scratch() + "/d";
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  std::string prefix = dir + "/p";
  run_ranks([&](int wr) {
    int r = w.crank[wr];
    if (r < 0) return;
    MPI_Comm c = w.comm;
    Rng o(ord[r]);
    H h(build(t[r].get(), &o)), m(build(q[r].get(), &o));
    std::string hb = image(h), mb = image(m);
    for (int op : script) {
      std::string result[2];
      for (int rep = 0; rep < 2; rep++) {
        H d(K->kvtree_new());
        switch (op) {
          case 0:
            if (w.n == 1) break;
            if (r == root) K->kvtree_send(h, (root + 1) % w.n, c);
            if (r == (root + 1) % w.n) K->kvtree_recv(d, root, c);
            break;
          case 1: K->kvtree_sendrecv(h, (r + shift) % w.n, d, (r + w.n - shift) % w.n, c); break;
          case 2: if (r == root) K->kvtree_bcast(h, root, c); else K->kvtree_bcast(d, root, c); break;
          case 3: K->kvtree_exchange(m, d, c); break;
          case 4: K->kvtree_exchange_direction(m, d, c, left ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT); break;
          default: K->kvtree_write_gather(prefix.c_str(), h, c); MPI_Barrier(c); if (r == 0) for (auto& f : {"", ".0.0"}) result[rep] += sorted_file(prefix + f); MPI_Barrier(c);
        }
        result[rep] += sorted(d);
        REQUIRE(image(h) == hb, "%s changed the tree of rank %d from %s to %s", nm[op], r, quote(hb, 300).c_str(), quote(image(h), 300).c_str());
        REQUIRE(image(m) == mb, "%s changed the messages of rank %d from %s to %s", nm[op], r, quote(mb, 300).c_str(), quote(image(m), 300).c_str());
      }
      REQUIRE(result[0] == result[1], "%s on rank %d gave %s and then %s", nm[op], r, quote(result[0]).c_str(), quote(result[1]).c_str());
    }
    require_equal(h, t[r].get(), "the tree");
    require_equal(m, q[r].get(), "the messages");
  });
  label_mpi(x);
  std::filesystem::remove_all(dir);
  if (w.n > 1) x.nontrivial();
}

Prop pbt::prop = {
  "T09", "exploration",
  "case = (serial) up to ten read-only operations of 27 kinds on a tree in some order, repeats and updates in between: keys, order and addresses of all elements stay as they are, repeats give "
  "the same result; (collective) sends, broadcasts, exchanges and gathers on up to nine ranks, each done twice, source trees compared at every rank; non-trivial: tree not empty (serial), "
  "more than one rank (collective)",
  {{"serial", serial, 96000, 1200000}, {"collective", collective, 4000, 50000}},
  {},
};
