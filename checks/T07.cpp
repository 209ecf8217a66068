// Every history of calls frees all memory exactly once.
#include <filesystem>
#include "fault.hpp"
#include "mpih.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

// A script: drawn once, run several times. Whatever remains allocated after a run is a leak.
struct Cmd {
  int op;
  int a, b;                // slots
  std::string k1, k2, k3;
  int num;
  uint64_t big;
  TP tree;
  std::string bytes;
  std::string path;
  Inject fault;
};
enum { SLOTS = 3 };
enum Op {
  NEW, DELETE, FILL, SET, SET_NULL, SETF, SET_KV, SET_KV_INT, UNSET, UNSET_KV, UNSET_KV_INT, UNSET_ALL, EXTRACT, MOVE, ELEM_EXTRACT, ELEM_EXTRACT_INT, ELEM_ADDR, ITER_DELETE,
  MERGE, SORT, SORT_INT, LIST_INT, LOOKUPS, PACK, UNPACK, PERSIST, UTIL_SET, UTIL_GET, PRINT, LOGIT,
  SPEW, MKDIR_, UNLINK_, WRITE_FILE, READ_FILE, WRITE_LOCK, READ_LOCK, RMW, FD, PIPE, GATHER, SCATTER, SPOIL, NULLS, NUM_OPS
};
static const char* const op_names[] = {
  "new", "delete", "fill", "set", "set NULL", "setf", "set_kv", "set_kv_int", "unset", "unset_kv", "unset_kv_int", "unset_all", "extract", "move a subtree", "elem_extract", "elem_extract_int",
  "elem_extract_by_addr", "delete while iterating", "merge", "sort", "sort_int", "list_int", "lookups", "pack", "unpack", "write_persist", "util_set", "util_get", "print", "log",
  "prepare file", "mkdir", "unlink", "write_file", "read_file", "write_with_lock", "read_with_lock", "read-modify-write", "write_fd/read_fd", "read_fd on a pipe", "write_to_gather", "read_scatter_single", "spoil a part", "NULL arguments"};
static_assert(sizeof op_names / sizeof *op_names == NUM_OPS, "");

static TreeCfg cfg(unsigned n) {
  TreeCfg c;
  c.maxnodes = n;
  c.big = 100000; c.bigrate = 300; c.longrate = 40;
  c.key.maxlen = 300;
  return c;
}
struct Run {
  std::string dir;
  kvtree* h[SLOTS] = {};
  ~Run() { for (auto& t : h) K->kvtree_delete(&t); }
};
static kvtree* down(kvtree* h, const Cmd& c) {  // some subtree
  kvtree* sub = K->kvtree_get(h, c.k3.c_str());
  return sub && c.num & 2 ? sub : h;
}
static void exec(Run& r, const Cmd& c) {
  kvtree *&a = r.h[c.a], *&b = r.h[c.b];
  if (!a) a = K->kvtree_new();
  if (!b) b = K->kvtree_new();
  const char *k1 = c.k1.c_str(), *k2 = c.k2.c_str();
  kvtree* at = down(a, c);
  std::string path = r.dir + c.path;
  switch (c.op) {
    case NEW: { kvtree* t = K->kvtree_new(); K->kvtree_delete(&t); break; }
    case DELETE: K->kvtree_delete(&a); a = nullptr; break;
    case FILL: K->kvtree_delete(&a); a = build(c.tree.get()); break;
    case SET: K->kvtree_set(at, k1, build(c.tree.get())); break;
    case SET_NULL: K->kvtree_set(at, k1, nullptr); break;
    case SETF: {
      kvtree* v = c.num & 1 ? build(c.tree.get()) : nullptr;
      switch (c.num >> 2 & 3) {
        case 0: K->kvtree_setf(at, v, "%s", k1); break;
        case 1: K->kvtree_setf(at, v, "%s %d", k1, c.num); break;
        case 2: K->kvtree_setf(at, v, "%s %s %lu", k1, k2, (unsigned long)c.big); break;
        default: K->kvtree_setf(at, v, "%s %d %s", k1, c.num, k2); break;
      }
      break;
    }
    case SET_KV: K->kvtree_set_kv(at, k1, k2); break;
    case SET_KV_INT: K->kvtree_set_kv_int(at, k1, c.num); break;
    case UNSET: K->kvtree_unset(at, k1); break;
    case UNSET_KV: K->kvtree_unset_kv(at, k1, k2); break;
    case UNSET_KV_INT: K->kvtree_unset_kv_int(at, k1, c.num); break;
    case UNSET_ALL: K->kvtree_unset_all(at); break;
    case EXTRACT: { kvtree* t = K->kvtree_extract(at, k1); K->kvtree_delete(&t); break; }
    case MOVE: { kvtree* t = K->kvtree_extract(at, k1); if (t) { if (c.num & 1) K->kvtree_set(b, k2, t); else K->kvtree_setf(b, t, "%s %d", k2, 3); } break; }
    case ELEM_EXTRACT: free_elem(K->kvtree_elem_extract(at, k1)); break;
    case ELEM_EXTRACT_INT: free_elem(K->kvtree_elem_extract_int(at, c.num)); break;
    case ELEM_ADDR: { kvtree_elem* e = nth_elem(at, c.big % 5); if (e) free_elem(K->kvtree_elem_extract_by_addr(at, e)); break; }
    case ITER_DELETE: {
      unsigned i = 0;
      for (kvtree_elem* e = K->kvtree_elem_first(at); e;) {
        kvtree_elem* nx = K->kvtree_elem_next(e);
        if (c.big >> (i++ % 60) & 1) { if (c.num & 1) K->kvtree_unset(at, K->kvtree_elem_key(e)); else free_elem(K->kvtree_elem_extract_by_addr(at, e)); }
        e = nx;
      }
      break;
    }
    case MERGE: K->kvtree_merge(at, b); break;
    case SORT: K->kvtree_sort(at, c.num & 1); break;
    case SORT_INT: K->kvtree_sort_int(at, c.num & 1); break;
    case LIST_INT: { int n, *v; K->kvtree_list_int(at, &n, &v); free(v); break; }
    case LOOKUPS:
      K->kvtree_get(at, k1); K->kvtree_getf(at, "%s %s", k1, k2); K->kvtree_getf(at, "%s %d %lu", k1, c.num, (unsigned long)c.big); K->kvtree_get_kv(at, k1, k2); K->kvtree_get_kv_int(at, k1, c.num);
      K->kvtree_elem_get(at, k1); K->kvtree_elem_get_first_val(at, k1); K->kvtree_get_val(at, k1); K->kvtree_size(at); K->kvtree_pack_size(at);
      break;
    case PACK: { char* m = (char*)malloc(K->kvtree_pack_size(at)); K->kvtree_pack(m, at); free(m); break; }
    case UNPACK: { kvtree* t = K->kvtree_new(); K->kvtree_unpack(c.bytes.data(), t); if (c.num & 1) { K->kvtree_merge(at, t); } K->kvtree_delete(&t); break; }
    case PERSIST: { void* m = nullptr; size_t n = 0; K->kvtree_write_persist(&m, &n, at); free(m); break; }
    case UTIL_SET:
      switch (c.num & 7) {
        case 0: K->kvtree_util_set_bytecount(at, k1, c.big); break;
        case 1: K->kvtree_util_set_crc32(at, k1, (uint32_t)c.big); break;
        case 2: K->kvtree_util_set_int(at, k1, c.num); break;
        case 3: K->kvtree_util_set_unsigned_long(at, k1, c.big); break;
        case 4: K->kvtree_util_set_str(at, k1, k2); break;
        case 5: K->kvtree_util_set_int64(at, k1, (int64_t)c.big); break;
        case 6: K->kvtree_util_set_double(at, k1, c.num / 3.0); break;
        default: K->kvtree_util_set_ptr(at, k1, (void*)(uintptr_t)c.big); break;
      }
      break;
    case UTIL_GET: {
      unsigned long ul; uLong cr; int i; int64_t ll; double d; void* p; char* st;
      K->kvtree_util_get_bytecount(at, k1, &ul); K->kvtree_util_get_crc32(at, k1, &cr); K->kvtree_util_get_int(at, k1, &i); K->kvtree_util_get_unsigned_long(at, k1, &ul);
      K->kvtree_util_get_str(at, k1, &st); K->kvtree_util_get_int64(at, k1, &ll); K->kvtree_util_get_double(at, k1, &d); K->kvtree_util_get_ptr(at, k1, &p);
      break;
    }
    case PRINT: if (c.num & 1) K->kvtree_print(at, c.num & 15); else K->kvtree_print_mode(at, c.num & 15, c.num & 16 ? KVTREE_PRINT_TREE : KVTREE_PRINT_KEYVAL); break;
    case LOGIT: K->kvtree_log(at, 1, c.num & 15); break;
    case SPEW: std::filesystem::remove_all(path); spew(path, c.bytes); break;
    case MKDIR_: mkdir(path.c_str(), 0755); break;
    case UNLINK_: std::filesystem::remove_all(path); break;
    case WRITE_FILE: case READ_FILE: case WRITE_LOCK: case READ_LOCK: case RMW: case FD: case PIPE: case GATHER: case SCATTER: {
      Inject j = c.fault;
      sys::With with(&j);
      switch (c.op) {
        case WRITE_FILE: K->kvtree_write_file(path.c_str(), at); break;
        case READ_FILE: K->kvtree_read_file(path.c_str(), at); break;
        case WRITE_LOCK: K->kvtree_write_with_lock(path.c_str(), at); break;
        case READ_LOCK: K->kvtree_read_with_lock(path.c_str(), at); break;
        case RMW: { int fd = -1; if (K->kvtree_lock_open_read(path.c_str(), &fd, at) == KVTREE_SUCCESS) K->kvtree_write_close_unlock(path.c_str(), &fd, b); break; }
        case FD: {
          int fd = open(path.c_str(), O_RDWR);
          if (fd < 0) break;
          if (c.num & 1) K->kvtree_read_fd(path.c_str(), fd, at); else K->kvtree_write_fd(path.c_str(), fd, at);
          close(fd);
          break;
        }
        case PIPE: {
          if (c.bytes.size() > 60000) break;
          int q[2];
          if (pipe(q)) break;
          if (write(q[1], c.bytes.data(), c.bytes.size())) {}
          close(q[1]);
          K->kvtree_read_fd("pipe", q[0], at);
          close(q[0]);
          break;
        }
        case GATHER: {
          setenv("KVTREE_ENTRIES_PER_FILE", c.num & 1 ? "1" : "2", 1);
          T all;
          for (int i = 0; i < (c.num & 3) + (int)(c.big & 1); i++) all.put(str_of_int(i), clone(c.tree.get()).release());
          H g(build(&all));
          K->kvtree_write_to_gather(path.c_str(), g, all.kids.size());
          break;
        }
        default: K->kvtree_read_scatter_single(path.c_str(), at); break;
      }
      break;
    }
    case SPOIL: {
      std::string f = path + (c.num & 4 ? "" : ".0.0");
      if (!exists(f)) break;
      std::string o = slurp(f);
      switch (c.num & 3) { case 0: o.resize(o.size() / 2); break; case 1: o += "x"; break; case 2: o.clear(); break; default: if (!o.empty()) o[c.big % o.size()] ^= 4; }
      std::filesystem::remove_all(f);
      spew(f, o);
      break;
    }
    default: {
      int n, *v, i, fd = -1;
      char* st;
      kvtree* none = nullptr;
      K->kvtree_delete(nullptr); K->kvtree_delete(&none); K->kvtree_set(nullptr, k1, nullptr); K->kvtree_setf(nullptr, nullptr, "%s %d", k1, 3); K->kvtree_getf(nullptr, "%s", k1);
      K->kvtree_set_kv(nullptr, k1, k2); K->kvtree_set_kv_int(nullptr, k1, 3); K->kvtree_merge(nullptr, at); K->kvtree_merge(at, nullptr); K->kvtree_sort(nullptr, 0); K->kvtree_sort_int(nullptr, 0);
      K->kvtree_list_int(nullptr, &n, &v); K->kvtree_util_set_str(nullptr, k1, k2); K->kvtree_util_set_int(nullptr, k1, 1); K->kvtree_util_get_str(nullptr, k1, &st); K->kvtree_util_get_int(nullptr, k1, &i);
      K->kvtree_unset_kv(nullptr, k1, k2); K->kvtree_unset_all(nullptr); K->kvtree_print(nullptr, 3); K->kvtree_log(nullptr, 1, 3); K->kvtree_read_file(nullptr, at); K->kvtree_write_file(nullptr, at);
      K->kvtree_write_file(path.c_str(), nullptr); K->kvtree_read_file(path.c_str(), nullptr); K->kvtree_lock_open_read(path.c_str(), &fd, nullptr); K->kvtree_write_with_lock(path.c_str(), nullptr);
      K->kvtree_set_kv(at, nullptr, k2); K->kvtree_set_kv(at, k1, nullptr); K->kvtree_set_kv_int(at, nullptr, 3); K->kvtree_util_set_str(at, nullptr, k2); K->kvtree_util_set_int(at, nullptr, 3);
      K->kvtree_get_kv(at, k1, nullptr); K->kvtree_get(at, nullptr); K->kvtree_unset(at, nullptr); K->kvtree_unset_kv(at, k1, nullptr); K->kvtree_extract(at, nullptr); K->kvtree_set(at, nullptr, nullptr);
      if (c.num & 1) K->kvtree_util_set_str(at, k1, nullptr);
    }
  }
  unsetenv("KVTREE_ENTRIES_PER_FILE");
}
static std::string key(Src& s, std::vector<std::string>& pool) {
  std::string k;
  do k = gen_key(s, cfg(1).key, &pool); while (k.size() > 900);
  if (pool.size() < 30) pool.push_back(k);
  return k;
}
static void script(Src& s, Ctx& x) {
  static const char* const variants[] = {"static", "flock", "fcntl", "none"};
  int v = (int)s.weighted({3, 3, 3, 1});
  UseLib u(v == 0 ? kv_static() : kv_load(variants[v]));
  std::vector<std::string> pool = {"A", "M"};
  std::vector<Cmd> cmds;
  size_t n = 1 + s.draw(14);
  bool filesy = s.chance(1, 2);
  std::string trace;
  for (size_t i = 0; i < n; i++) {
    Cmd c;
    c.op = filesy && s.chance(2, 3) ? (int)s.range(SPEW, SPOIL) : (int)s.draw(NUM_OPS - 1);
    c.a = (int)s.draw(SLOTS - 1);
    c.b = (c.a + 1 + (int)s.draw(SLOTS - 2)) % SLOTS;
    c.k1 = key(s, pool);
    c.k2 = key(s, pool);
    c.k3 = s.pick(pool);
    c.num = gen_int(s);
    c.big = s.draw(UINT64_MAX);
    c.tree = gen_tree(s, cfg(12));
    collect_keys(c.tree.get(), pool, 30);
    c.path = s.chance(3, 4) ? "/f" : s.chance(1, 3) ? "/no/f" : "/g";
    if (c.op == GATHER || c.op == SCATTER || c.op == SPOIL) c.path = s.chance(9, 10) ? "/p" : "/no/p";
    encode_body(c.tree.get(), c.bytes);
    if (c.op == SPEW || c.op == PIPE) {
      std::string o = encode_file(c.tree.get(), s.chance(3, 4));
      switch (s.weighted({3, 1, 1, 1, 1, 1})) {
        case 0: break;
        case 1: o.resize(s.draw(o.size())); break;
        case 2: o[s.draw(o.size() - 1)] ^= 1 << s.draw(7); break;
        case 3: o = frame(std::string(s.draw(60), (char)s.draw(255)), true); break;                 // well framed nonsense
        case 4: { std::string q = c.bytes; if (q.size() > 4) q.resize(s.draw(q.size() - 1)); o = frame(q, true); break; }  // body cut short
        default: o = frame(c.bytes + std::string(1 + s.draw(10), '\0'), true); break;                 // body ends early
      }
      c.bytes = o;
    }
    if (c.op >= WRITE_FILE && c.op <= SCATTER && s.chance(1, 2)) gen_fault(s, c.fault, true);
    trace += fmt("%s%s; ", op_names[c.op], c.fault.op == sys::NOPS ? "" : (" (" + describe(c.fault) + ")").c_str());
    x.label(op_names[c.op]);
    cmds.push_back(std::move(c));
  }
  x.note("%s: %s", variants[v], trace.c_str());
  std::string dir = scratch() + "/t";
  size_t before[4];
  for (int round = 0; round < 3; round++) {
    std::filesystem::remove_all(dir);
    mkdir(dir.c_str(), 0755);
    {
      Run r;
      r.dir = dir;
      for (auto& c : cmds) exec(r, c);
    }
    before[round] = __sanitizer_get_current_allocated_bytes();
  }
  if (before[2] != before[1]) {
    // name the call: run the prefixes
    long grow = (long)(before[2] - before[1]);
    std::string who;
    for (size_t m = 1; m <= cmds.size() && who.empty(); m++) {
      size_t q[2];
      for (int round = 0; round < 2; round++) {
        std::filesystem::remove_all(dir);
        mkdir(dir.c_str(), 0755);
        { Run r; r.dir = dir; for (size_t i = 0; i < m; i++) exec(r, cmds[i]); }
        q[round] = __sanitizer_get_current_allocated_bytes();
      }
      if (q[1] != q[0]) who = op_names[cmds[m - 1].op];
    }
    std::filesystem::remove_all(dir);
    FAILK("leak", "%ld bytes stay allocated after %s", grow, who.empty() ? "the calls" : who.c_str());
  }
  std::filesystem::remove_all(dir);
  x.nontrivial();
}
// pointers lent to the caller stay valid while other elements change
static void lent(Src& s, Ctx& x) {
  TP t = gen_tree(s, cfg(40));
  for (int i = 0; i < 3; i++) t->sub(fmt("scalar %d", i))->sub(gen_key(s, cfg(1).key));
  H h(build(t.get())), other(build(gen_tree(s, cfg(10)).get()));
  // borrowed things: pointer, expected bytes / subtree, and the top-level key it belongs to
  struct Loan { std::string owner; const char* str; std::string want; const kvtree* sub; TP model; kvtree_elem* el; };
  std::vector<Loan> loans;
  for (auto& k : t->kids) {
    const char* key = k.first.c_str();
    kvtree_elem* e = K->kvtree_elem_get(h, key);
    REQUIRE(e, "element %s not found", quote(k.first).c_str());
    Loan l;
    l.owner = k.first; l.str = K->kvtree_elem_key(e); l.want = k.first; l.sub = K->kvtree_get(h, key); l.model = k.second ? clone(k.second) : nullptr; l.el = e;
    if (!l.sub && l.model) FAILK("lookup", "subtree of %s missing", quote(k.first).c_str());
    loans.push_back(std::move(l));
    if (k.second && k.second->kids.size() == 1) {
      char* st = nullptr;
      Loan m;
      m.owner = k.first;
      switch (s.draw(2)) {
        case 0: if (K->kvtree_util_get_str(h, key, &st) != KVTREE_SUCCESS) st = nullptr; break;
        case 1: st = K->kvtree_get_val(h, key); break;
        default: st = K->kvtree_elem_get_first_val(h, key); break;
      }
      REQUIRE(st, "value of %s not found", quote(k.first).c_str());
      m.str = st; m.want = k.second->kids.begin()->first; m.sub = nullptr; m.el = nullptr;
      loans.push_back(std::move(m));
    }
  }
  size_t n = 1 + s.draw(8);
  std::string p = scratch() + "/f", what;
  for (size_t i = 0; i < n; i++) {
    switch (s.draw(12)) {
      case 0: K->kvtree_sort(h, (int)s.draw(1)); what += "sort; "; break;
      case 1: { std::string k = gen_key(s, cfg(1).key); if (t->has(k)) break; K->kvtree_set(h, k.c_str(), build(gen_tree(s, cfg(5)).get())); t->put(k, new T); what += "set another key; "; break; }
      case 2: case 3: {  // change or remove one key
        if (t->kids.empty()) break;
        std::string k = pick_key(s, t.get(), cfg(1).key);
        for (size_t q = loans.size(); q-- > 0;) if (loans[q].owner == k) loans.erase(loans.begin() + q);
        switch (s.draw(2)) { case 0: K->kvtree_unset(h, k.c_str()); break; case 1: K->kvtree_set(h, k.c_str(), K->kvtree_new()); break; default: free_elem(K->kvtree_elem_extract(h, k.c_str())); }
        t->erase(k);
        what += "change " + quote(k, 20) + "; ";
        break;
      }
      case 4: K->kvtree_write_file(p.c_str(), h); what += "write; "; break;
      case 5: K->kvtree_merge(other, h); what += "merge elsewhere; "; break;
      case 6: K->kvtree_unset_all(other); what += "clear the other tree; "; break;
      case 7: { int c, *v; K->kvtree_list_int(h, &c, &v); free(v); break; }
      case 8: { void* m; size_t z; K->kvtree_write_persist(&m, &z, h); free(m); break; }
      case 9: K->kvtree_print(h, 0); break;
      case 10: K->kvtree_exchange_sendq ? (void)0 : (void)0; K->kvtree_getf(h, "%s %d", "x", 1); break;
      case 11: { H c(K->kvtree_new()); K->kvtree_merge(c, h); what += "copy and delete the copy; "; break; }
      default: { std::string k = gen_key(s, cfg(1).key); if (t->has(k) || k.size() > 900) break; K->kvtree_util_set_int(h, k.c_str(), 5); t->put(k, new T); what += "util_set another key; "; }
    }
    for (auto& l : loans) {
      REQUIRE(strcmp(l.str, l.want.c_str()) == 0, "a lent string changed to %s, was %s, after: %s", quote(l.str).c_str(), quote(l.want).c_str(), what.c_str());
      if (l.sub && l.model) { std::string d = diff(l.sub, l.model.get()); REQUIRE(d.empty(), "a lent subtree changed after: %s (%s)", what.c_str(), d.c_str()); }
      if (l.el) REQUIRE(K->kvtree_elem_get(h, l.want.c_str()) == l.el, "element %s moved after: %s", quote(l.want).c_str(), what.c_str());
    }
  }
  unlink(p.c_str());
  x.note("%zu loans: %s", loans.size(), what.c_str());
  if (loans.size() > 2) x.nontrivial();
}
// calls given strings that the very tree they change has lent
static void alias(Src& s, Ctx& x) {
  TreeCfg tc = cfg(1 + (unsigned)s.draw(30));
  tc.key.maxlen = 200;
  tc.bigrate = 0;
  TP t = gen_tree(s, tc);
  for (int i = 0; i < 2; i++) t->sub(fmt("scalar %d", i))->sub(gen_key(s, tc.key));
  H h(build(t.get()));
  size_t n = 1 + s.draw(5);
  std::string what;
  bool own = false;
  // a string lent from some depth under the element `key` of the tree at `at`
  struct Str { const char* p; std::string v; bool lent; };
  auto lend = [&](kvtree* at, T* m) -> Str {
    if (m->kids.empty() || s.chance(1, 6)) { static std::string fresh[8]; static int q; std::string& f = fresh[q++ & 7]; f = gen_key(s, tc.key); if (f.size() > 900) f.resize(900); return {f.c_str(), f, false}; }
    kvtree_elem* e = nth_elem(at, s.draw(m->kids.size() - 1));
    kvtree* sub = K->kvtree_elem_hash(e);
    std::string k = K->kvtree_elem_key(e);
    if (sub && K->kvtree_size(sub) > 0 && s.chance(1, 2)) {
      kvtree_elem* q = nth_elem(sub, s.draw(K->kvtree_size(sub) - 1));
      if (K->kvtree_elem_hash(q) && K->kvtree_size(K->kvtree_elem_hash(q)) > 0 && s.chance(1, 3)) q = K->kvtree_elem_first(K->kvtree_elem_hash(q));
      e = q;
    }
    char* p = K->kvtree_elem_key(e);
    return {p, p, true};
  };
  for (size_t i = 0; i < n; i++) {
    kvtree* at = h;
    T* m = t.get();
    if (s.chance(1, 3) && !m->kids.empty()) {  // one level down
      std::string k = pick_key(s, m, tc.key);
      if (m->at(k) && K->kvtree_get(at, k.c_str())) { at = K->kvtree_get(at, k.c_str()); m = m->at(k); }
    }
    Str k = lend(at, m), v = lend(at, m);
    // often: key and value of the same entry
    if (s.chance(1, 3)) {
      kvtree* sub = K->kvtree_get(at, k.v.c_str());
      if (sub && K->kvtree_elem_first(sub)) { char* p = K->kvtree_elem_key(K->kvtree_elem_first(sub)); v = {p, p, true}; }
    }
    if (k.v.size() > 900 || v.v.size() > 900) continue;
    own |= k.lent || v.lent;
    auto put1 = [&](const std::string& key, const std::string& val) { T* q = new T; q->put(val, nullptr); m->put(key, q); };
    int op = (int)s.draw(16), num = gen_int(s);
    uint64_t big = s.draw(UINT64_MAX);
    auto leaf = [&](const std::string& val) { T* q = new T; q->put(val, new T); m->put(k.v, q); };
    (void)put1;
    static const char* const names[] = {"util_set_str", "util_set_int", "util_set_bytecount", "util_set_crc32", "util_set_unsigned_long", "util_set_int64", "util_set_double", "util_set_ptr",
      "set_kv", "set_kv_int", "set", "setf", "unset", "unset_kv", "unset_kv_int", "extract", "elem_extract"};
    what += fmt("%s(%s%s, %s%s); ", names[op], quote(k.v, 20).c_str(), k.lent ? " lent" : "", quote(v.v, 20).c_str(), v.lent ? " lent" : "");
    switch (op) {
      case 0: K->kvtree_util_set_str(at, k.p, v.p); leaf(v.v); break;
      case 1: K->kvtree_util_set_int(at, k.p, num); leaf(fmt("%d", num)); break;
      case 2: K->kvtree_util_set_bytecount(at, k.p, big); leaf(fmt("%lu", (unsigned long)big)); break;
      case 3: K->kvtree_util_set_crc32(at, k.p, (uint32_t)big); leaf(fmt("%#x", (unsigned)big)); break;
      case 4: K->kvtree_util_set_unsigned_long(at, k.p, big); leaf(fmt("%lu", (unsigned long)big)); break;
      case 5: K->kvtree_util_set_int64(at, k.p, (int64_t)big); leaf(fmt("%lld", (long long)big)); break;
      case 6: K->kvtree_util_set_double(at, k.p, num); leaf(fmt("%f", (double)num)); break;
      case 7: K->kvtree_util_set_ptr(at, k.p, (void*)(uintptr_t)big); leaf(fmt("%p", (void*)(uintptr_t)big)); break;
      case 8: case 9: {
        std::string val = op == 8 ? v.v : fmt("%d", num);
        if (op == 8) K->kvtree_set_kv(at, k.p, v.p); else K->kvtree_set_kv_int(at, k.p, num);
        m->sub(k.v)->sub(val);
        break;
      }
      case 10: { TP sub = gen_tree(s, cfg(5)); K->kvtree_set(at, k.p, build(sub.get())); m->put(k.v, sub.release()); break; }
      case 11: K->kvtree_setf(at, nullptr, "%s %s", k.p, v.p); m->sub(k.v)->put(v.v, nullptr); break;
      case 12: K->kvtree_unset(at, k.p); m->erase(k.v); break;
      case 13: case 14: {
        std::string val = op == 13 ? v.v : fmt("%d", num);
        if (op == 13) K->kvtree_unset_kv(at, k.p, v.p); else K->kvtree_unset_kv_int(at, k.p, num);
        if (m->has(k.v)) { if (m->at(k.v)) m->at(k.v)->erase(val); if (!m->at(k.v) || m->at(k.v)->kids.empty()) m->erase(k.v); }
        break;
      }
      case 15: { kvtree* q = K->kvtree_extract(at, k.p); K->kvtree_delete(&q); m->erase(k.v); break; }
      default: free_elem(K->kvtree_elem_extract(at, k.p)); m->erase(k.v); break;
    }
    // NULL leaves and empty trees are told apart nowhere in this check
    std::string d = diff(h, t.get());
    REQUIRE(d.empty(), "after %s: %s", what.c_str(), d.c_str());
  }
  x.note("%s", what.c_str());
  if (own) x.nontrivial();
}
static void spoil(const std::string& dir, uint64_t r) {
  std::vector<std::string> f;
  for (auto& e : std::filesystem::directory_iterator(dir)) f.push_back(e.path().string());
  std::sort(f.begin(), f.end());
  if (f.empty()) return;
  const std::string& p = f[r % f.size()];
  std::string b = slurp(p);
  switch (r >> 20 & 3) {
    case 0: unlink(p.c_str()); break;
    case 1: b.resize(b.size() / 2); spew(p, b); break;
    case 2: spew(p, ""); break;
    default: {  // valid, but with parts missing
      T t;
      if (decode_file(b, &t) != 0) return;
      static const char* const keys[] = {"RANK", "LEVEL", "RANKS"};
      const char* k = keys[r >> 24 & 1];
      if (r >> 26 & 1 && t.at("RANK")) for (auto& e : t.at("RANK")->kids) if (e.second) e.second->erase(r >> 27 & 1 ? "FILE" : "OFFSET");
      if (!(r >> 26 & 1)) t.erase(k);
      spew(p, encode_file(&t));
    }
  }
}
struct RankInject : sys::Hook {
  std::vector<Inject> j;
  std::vector<char> on;
  sys::Act before(const sys::Call& c) override { int r = mpi::me(); return r >= 0 && r < (int)j.size() && on[r] ? j[r].before(c) : sys::Act::pass(); }
};
static void collective(Src& s, Ctx& x) {
  int n = 1 + (int)s.draw(5);
  std::string dir = scratch() + "/t", p = dir + "/p";
  std::vector<TP> t;
  for (int i = 0; i < n; i++) t.push_back(gen_tree(s, cfg(6)));
  unsigned long seg = spread(s, x, t);
  if (!seg) seg = 100 + s.draw(s.chance(1, 2) ? 60 : 400);
  bool fw = s.chance(1, 3), fr = s.chance(1, 3), spoiled = s.chance(1, 2);
  Inject jw, jr;
  int vw = (int)s.draw(n - 1), vr = (int)s.draw(n - 1);
  if (fw) gen_fault(s, jw, false);
  if (fr) gen_fault(s, jr, false);
  uint64_t how = s.seed32();
  int root = (int)s.draw(n - 1);
  size_t bytes[3] = {};
  long grown = 0;
  for (int round = 0; round < 4; round++) {
    std::filesystem::remove_all(dir);
    mkdir(dir.c_str(), 0755);
    set_segsize(seg);
    mpi::begin(s, n, true);
    RankInject ri;
    ri.j.resize(n);
    ri.on.assign(n, 0);
    {
      sys::With with(&ri);
      run_ranks([&](int r) {
        H h(build(t[r].get())), d(K->kvtree_new()), q(K->kvtree_new());
        // drawn anew in every round, so draws stay in step
        K->kvtree_exchange_sendq(q, (r + 1) % n, h);
        K->kvtree_exchange_sendq(q, (r + 1) % n, h);
        K->kvtree_exchange_sendq(q, root, h);
        K->kvtree_exchange(q, d, MPI_COMM_WORLD);
        K->kvtree_exchange_direction(q, d, MPI_COMM_WORLD, how & 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
        K->kvtree_sendrecv(h, (r + 1) % n, d, (r + n - 1) % n, MPI_COMM_WORLD);
        K->kvtree_sendrecv(h, r == 0 ? MPI_PROC_NULL : r - 1, d, r == n - 1 ? MPI_PROC_NULL : r + 1, MPI_COMM_WORLD);
        if (n > 1 && r == 0) K->kvtree_send(h, n - 1, MPI_COMM_WORLD);
        if (n > 1 && r == n - 1) { K->kvtree_recv(d, 0, MPI_COMM_WORLD); K->kvtree_recv(nullptr, 0, MPI_COMM_WORLD); }
        K->kvtree_bcast(d, root, MPI_COMM_WORLD);
        if (fw && r == vw) { ri.j[r] = jw; ri.on[r] = 1; }
        K->kvtree_write_gather(p.c_str(), h, MPI_COMM_WORLD);
        ri.on[r] = 0;
        MPI_Barrier(MPI_COMM_WORLD);
      });
    }
    if (spoiled) spoil(dir, how);
    mpi::begin(s, n, true);
    ri.on.assign(n, 0);
    {
      sys::With with(&ri);
      run_ranks([&](int r) {
        H d(K->kvtree_new());
        if (fr && r == vr) { ri.j[r] = jr; ri.on[r] = 1; }
        K->kvtree_read_scatter(p.c_str(), d, MPI_COMM_WORLD);
        ri.on[r] = 0;
      });
    }
    { H d(K->kvtree_new()); K->kvtree_read_scatter_single(p.c_str(), d); }
    set_segsize(0);
    ri.j.clear(); ri.on.clear();
    if (round) { bytes[round - 1] = __sanitizer_get_current_allocated_bytes(); }
  }
  std::filesystem::remove_all(dir);
  x.note("%d ranks, %s%s%s", n, fw ? ("writing: rank " + str_of_int(vw) + " " + describe(jw) + "; ").c_str() : "", fr ? ("reading: rank " + str_of_int(vr) + " " + describe(jr) + "; ").c_str() : "", spoiled ? "a file spoiled" : "");
  grown = (long)(bytes[2] - bytes[1]);
  REQUIRE(!(bytes[2] > bytes[1] && bytes[1] > bytes[0]), "%ld more bytes stay allocated after every round of collective calls", grown);
  x.nontrivial();
}

Prop pbt::prop = {
  "T07", "exploration",
  "case = (script) a history of up to 15 calls of 43 kinds, tree, scalar, list, pack, print, file, lock and serial gather calls, failing ones included (injected "
  "system-call failures, damaged files, NULL arguments), run three times: the allocated bytes must not grow from the second to the third; (lent) pointers held "
  "while other elements change; (collective) all collective calls on up to six ranks with faults and spoiled files, four rounds; AddressSanitizer watches for "
  "double frees and use after free; non-trivial: the history ran (script, collective), more than two loans (lent)",
  {{"script", script, 100000, 2000000}, {"lent", lent, 50000, 1000000}, {"alias", alias, 50000, 1000000}, {"collective", collective, 2500, 50000}},
  {"leaks are measured as growth of AddressSanitizer's allocated-bytes counter", "running out of memory is A01's subject"},
};
