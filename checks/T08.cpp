// A NULL tree is accepted everywhere as an empty tree.
#include <filesystem>
#include <sys/stat.h>
#include "capture.hpp"
#include "fault.hpp"
#include "mpih.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static TreeCfg cfg(unsigned n) {
  TreeCfg c;
  c.maxnodes = n;
  c.key.maxlen = 200; c.longrate = 60;
  return c;
}
static std::string shortkey(Src& s, const T* t, bool present) {
  std::string k;
  do k = present && !t->kids.empty() ? pick_key(s, t, cfg(1).key) : gen_key(s, cfg(1).key); while (k.size() > 900);
  return k;
}
// one call with NULL; x is a valid tree for the other tree argument
enum NullOp {
  N_DELETE, N_DELETE_PTR, N_SIZE, N_GET, N_SET, N_SET_NULL, N_EXTRACT, N_UNSET, N_UNSET_ALL, N_MERGE_INTO, N_MERGE_INTO_NULL, N_MERGE_FROM, N_SETF, N_GETF, N_SORT, N_SORT_INT, N_LIST_INT,
  N_SET_KV, N_SET_KV_INT, N_GET_KV, N_GET_KV_INT, N_UNSET_KV, N_UNSET_KV_INT, N_ELEM_FIRST, N_ELEM_NEXT, N_ELEM_KEY, N_ELEM_KEY_INT, N_ELEM_HASH, N_ELEM_GET, N_FIRST_VAL,
  N_ELEM_EXTRACT, N_ELEM_EXTRACT_INT, N_EXTRACT_ADDR, N_EXTRACT_ADDR_NULL, N_GET_VAL, N_PACK_SIZE, N_PACK, N_UNPACK, N_PERSIST, N_PRINT, N_PRINT_MODE, N_LOG,
  N_SCALAR_SET, N_SCALAR_GET, N_COUNT
};
static const char* const names[] = {
  "delete(NULL)", "delete(pointer to NULL)", "size", "get", "set", "set without a subtree", "extract", "unset", "unset_all", "merge into NULL", "merge NULL into NULL", "merge from NULL", "setf", "getf", "sort",
  "sort_int", "list_int", "set_kv", "set_kv_int", "get_kv", "get_kv_int", "unset_kv", "unset_kv_int", "elem_first", "elem_next", "elem_key", "elem_key_int", "elem_hash", "elem_get", "elem_get_first_val",
  "elem_extract", "elem_extract_int", "elem_extract_by_addr of a NULL element", "elem_extract_by_addr with both NULL", "get_val", "pack_size", "pack", "unpack into NULL", "write_persist", "print", "print_mode", "log",
  "scalar setter", "scalar getter"};
static_assert(sizeof names / sizeof *names == N_COUNT, "");

static void null_call(Src& s, Ctx& x, int op, kvtree* h, const T* t) {
  std::string k1 = shortkey(s, t, s.chance(1, 2)), k2 = shortkey(s, t, s.chance(1, 2));
  const char *a = k1.c_str(), *b = k2.c_str();
  int num = gen_int(s);
  uint64_t big = s.draw(UINT64_MAX);
  TP vt = gen_tree(s, cfg(4));
  H v(build(vt.get()));
  kvtree* N = nullptr;
  const char* what = names[op];
  x.label(what);
  TP was = op == N_MERGE_FROM || op == N_EXTRACT_ADDR ? clone(t) : nullptr;
  std::string before = snapshot(h), vbefore = snapshot(v);
  size_t bytes = __sanitizer_get_current_allocated_bytes();
  long grown = 0;
  // NOTE: between the two counter readings, only the library allocates
#define MEASURE grown = (long)(__sanitizer_get_current_allocated_bytes() - bytes)
#define IS_NULL(e) { const void* r_ = (e); MEASURE; REQUIRE(r_ == nullptr, "%s with a NULL tree returns %p", what, r_); }
#define SUCCEEDS(e) { int r_ = (e); MEASURE; REQUIRE(r_ == KVTREE_SUCCESS, "%s with a NULL tree fails with %d", what, r_); }
#define FAILS(e) { int r_ = (e); MEASURE; REQUIRE(r_ != KVTREE_SUCCESS, "%s with a NULL tree succeeds", what); }
  switch (op) {
    case N_DELETE: SUCCEEDS(K->kvtree_delete(nullptr)) break;
    case N_DELETE_PTR: SUCCEEDS(K->kvtree_delete(&N)) REQUIRE(!N, "deleting a NULL tree sets the pointer to %p", (void*)N); break;
    case N_SIZE: { int n = K->kvtree_size(N); MEASURE; REQUIRE(n == 0, "size of NULL is %d", n); break; }
    case N_GET: IS_NULL(K->kvtree_get(N, a)) break;
    case N_SET: IS_NULL(K->kvtree_set(N, a, v)) break;
    case N_SET_NULL: IS_NULL(K->kvtree_set(N, a, nullptr)) break;
    case N_EXTRACT: IS_NULL(K->kvtree_extract(N, a)) break;
    case N_UNSET: SUCCEEDS(K->kvtree_unset(N, a)) break;
    case N_UNSET_ALL: SUCCEEDS(K->kvtree_unset_all(N)) break;
    case N_MERGE_INTO: FAILS(K->kvtree_merge(N, h)) break;
    case N_MERGE_INTO_NULL: FAILS(K->kvtree_merge(N, N)) break;
    case N_MERGE_FROM: SUCCEEDS(K->kvtree_merge(h, N)) break;
    case N_SETF:
      switch (num & 3) {
        case 0: IS_NULL(K->kvtree_setf(N, v, "%s", a)) break;
        case 1: IS_NULL(K->kvtree_setf(N, nullptr, "%s %s", a, b)) break;
        case 2: IS_NULL(K->kvtree_setf(N, v, "%d %s %lu", num, a, (unsigned long)big)) break;
        default: IS_NULL(K->kvtree_setf(N, nullptr, "%s %d", a, num))
      }
      break;
    case N_GETF:
      switch (num & 3) {
        case 0: IS_NULL(K->kvtree_getf(N, "%s", a)) break;
        case 1: IS_NULL(K->kvtree_getf(N, "%s %s", a, b)) break;
        case 2: IS_NULL(K->kvtree_getf(N, "%d %s %lu", num, a, (unsigned long)big)) break;
        default: IS_NULL(K->kvtree_getf(N, "%s %d", a, num))
      }
      break;
    case N_SORT: SUCCEEDS(K->kvtree_sort(N, num & 1)) break;
    case N_SORT_INT: SUCCEEDS(K->kvtree_sort_int(N, num & 1)) break;
    case N_LIST_INT: {
      int n = 77, *l = (int*)&n;
      int rc = K->kvtree_list_int(N, &n, &l);
      bool set = l != &n;
      if (set && l) free(l);
      MEASURE;
      REQUIRE(set && l == nullptr, "list_int of NULL %s", set ? "returns a list" : "does not set the list");
      REQUIRE(rc == KVTREE_SUCCESS && n == 0, "list_int of NULL returns %d and count %d", rc, n);
      break;
    }
    case N_SET_KV: IS_NULL(K->kvtree_set_kv(N, a, b)) break;
    case N_SET_KV_INT: IS_NULL(K->kvtree_set_kv_int(N, a, num)) break;
    case N_GET_KV: IS_NULL(K->kvtree_get_kv(N, a, b)) break;
    case N_GET_KV_INT: IS_NULL(K->kvtree_get_kv_int(N, a, num)) break;
    case N_UNSET_KV: SUCCEEDS(K->kvtree_unset_kv(N, a, b)) break;
    case N_UNSET_KV_INT: SUCCEEDS(K->kvtree_unset_kv_int(N, a, num)) break;
    case N_ELEM_FIRST: IS_NULL(K->kvtree_elem_first(N)) break;
    case N_ELEM_NEXT: IS_NULL(K->kvtree_elem_next(nullptr)) break;
    case N_ELEM_KEY: IS_NULL(K->kvtree_elem_key(nullptr)) break;
    case N_ELEM_KEY_INT: { int n = K->kvtree_elem_key_int(nullptr); MEASURE; REQUIRE(n == 0, "elem_key_int of NULL is %d", n); break; }
    case N_ELEM_HASH: IS_NULL(K->kvtree_elem_hash(nullptr)) break;
    case N_ELEM_GET: IS_NULL(K->kvtree_elem_get(N, a)) break;
    case N_FIRST_VAL: IS_NULL(K->kvtree_elem_get_first_val(N, a)) break;
    case N_ELEM_EXTRACT: IS_NULL(K->kvtree_elem_extract(N, a)) break;
    case N_ELEM_EXTRACT_INT: IS_NULL(K->kvtree_elem_extract_int(N, num)) break;
    case N_EXTRACT_ADDR: IS_NULL(K->kvtree_elem_extract_by_addr(h, nullptr)) break;
    case N_EXTRACT_ADDR_NULL: IS_NULL(K->kvtree_elem_extract_by_addr(N, nullptr)) break;
    case N_GET_VAL: IS_NULL(K->kvtree_get_val(N, a)) break;
    case N_PACK_SIZE: { size_t n = K->kvtree_pack_size(N); MEASURE; REQUIRE(n == 4, "pack size of NULL is %zu, of an empty tree 4", n); break; }
    case N_PACK: {
      char buf[16];
      memset(buf, 7, sizeof buf);
      size_t n = K->kvtree_pack(buf, N);
      MEASURE;
      REQUIRE(n == 4 && !memcmp(buf, "\0\0\0\0\7\7\7\7\7\7\7\7\7\7\7\7", 16), "packing NULL writes %s", quote(std::string(buf, 16)).c_str());
      break;
    }
    case N_UNPACK: {
      std::string body;
      encode_body(vt.get(), body);
      bytes = __sanitizer_get_current_allocated_bytes();
      K->kvtree_unpack(body.data(), N);
      MEASURE;
      break;
    }
    case N_PERSIST: {
      void* m = (void*)a;
      size_t n = (size_t)big;
      FAILS(K->kvtree_write_persist(&m, &n, N))
      REQUIRE(m == (void*)a, "write_persist of NULL fails but hands out a buffer");
      break;
    }
    case N_PRINT: case N_PRINT_MODE: case N_LOG: {
      int rc = 0;
      int indent = abs(num % 3000), mode = big & 1 ? KVTREE_PRINT_TREE : KVTREE_PRINT_KEYVAL;
      std::string o = capture([&] { rc = op == N_PRINT ? K->kvtree_print(N, indent) : op == N_PRINT_MODE ? K->kvtree_print_mode(N, indent, mode) : K->kvtree_log(N, (int)(big % 3), indent); });
      REQUIRE(rc == KVTREE_SUCCESS, "%s of NULL fails", what);
      REQUIRE(std::count(o.begin(), o.end(), '\n') <= 2, "%s of NULL prints %s", what, quote(o).c_str());
      break;
    }
    case N_SCALAR_SET:
      switch (num & 7) {
        case 0: K->kvtree_util_set_bytecount(N, a, big); break;
        case 1: K->kvtree_util_set_crc32(N, a, (uint32_t)big); break;
        case 2: K->kvtree_util_set_int(N, a, num); break;
        case 3: K->kvtree_util_set_unsigned_long(N, a, big); break;
        case 4: K->kvtree_util_set_str(N, a, b); break;
        case 5: K->kvtree_util_set_int64(N, a, (int64_t)big); break;
        case 6: K->kvtree_util_set_double(N, a, num / 7.0); break;
        default: K->kvtree_util_set_ptr(N, a, (void*)(uintptr_t)big);
      }
      MEASURE;
      break;
    default: {
      unsigned long ul = big; uLong cr = big; int i = num; int64_t ll = big; double d = num; void* p = (void*)(uintptr_t)big; char* st = (char*)a;
      int rc[8];
      rc[0] = K->kvtree_util_get_bytecount(N, a, &ul); REQUIRE(ul == big, "get_bytecount of NULL changes its output");
      rc[1] = K->kvtree_util_get_crc32(N, a, &cr); REQUIRE(cr == big, "get_crc32 of NULL changes its output");
      rc[2] = K->kvtree_util_get_int(N, a, &i); REQUIRE(i == num, "get_int of NULL changes its output");
      rc[3] = K->kvtree_util_get_unsigned_long(N, a, &ul); REQUIRE(ul == big, "get_unsigned_long of NULL changes its output");
      rc[4] = K->kvtree_util_get_str(N, a, &st); REQUIRE(st == a, "get_str of NULL changes its output");
      rc[5] = K->kvtree_util_get_int64(N, a, &ll); REQUIRE(ll == (int64_t)big, "get_int64 of NULL changes its output");
      rc[6] = K->kvtree_util_get_double(N, a, &d); REQUIRE(d == num, "get_double of NULL changes its output");
      rc[7] = K->kvtree_util_get_ptr(N, a, &p); REQUIRE(p == (void*)(uintptr_t)big, "get_ptr of NULL changes its output");
      MEASURE;
      for (int q = 0; q < 8; q++) REQUIRE(rc[q] != KVTREE_SUCCESS, "scalar getter %d succeeds on a NULL tree", q);
    }
  }
  REQUIRE(grown == 0, "%s with NULL: %ld bytes stay allocated", what, grown);
  REQUIRE(snapshot(h) == before, "%s with NULL changed another tree from %s to %s", what, quote(before).c_str(), quote(snapshot(h)).c_str());
  REQUIRE(snapshot(v) == vbefore, "%s with NULL changed the tree passed as value", what);
}
static void calls(Src& s, Ctx& x) {
  UseLib u(s.chance(1, 2) ? kv_static() : kv_load("noswap"));
  TP t = gen_tree(s, cfg(15));
  H h(build(t.get()));
  size_t n = 1 + s.draw(9);
  for (size_t i = 0; i < n; i++) {
    int op = (int)s.draw(N_COUNT - 1);
    x.note("%s", names[op]);
    null_call(s, x, op, h, t.get());
    if (s.chance(1, 3)) {  // and a change of the real tree in between
      std::string k = shortkey(s, t.get(), true);
      switch (s.draw(2)) {
        case 0: { TP v = gen_tree(s, cfg(4)); K->kvtree_set(h, k.c_str(), build(v.get())); t->put(k, v.release()); break; }
        case 1: K->kvtree_unset(h, k.c_str()); t->erase(k); break;
        default: K->kvtree_set(h, k.c_str(), nullptr); t->put(k, nullptr); if (!t->has(k)) t->ref(k) = nullptr;
      }
    }
  }
  require_equal(h, t.get(), "the real tree");
  x.nontrivial();
}
// getters on keys that are there but have no subtree, or an empty one: lookups that lead to NULL trees
static void missing(Src& s, Ctx& x) {
  TP t = gen_tree(s, cfg(25));
  std::string k = shortkey(s, t.get(), s.chance(1, 2));
  int form = (int)s.draw(2);
  switch (form) {
    case 0: t->erase(k); break;
    case 1: t->put(k, nullptr); t->ref(k) = nullptr; break;
    default: t->put(k, new T);
  }
  H h(build(t.get()));
  std::string before = snapshot(h);
  x.note("key %s is %s in %s", quote(k).c_str(), form == 0 ? "missing" : form == 1 ? "there without a subtree" : "there with an empty subtree", show(t.get(), 150).c_str());
  x.label(form == 0 ? "missing" : form == 1 ? "no subtree" : "empty subtree");
  const char* a = k.c_str();
  kvtree* sub = K->kvtree_get(h, a);
  REQUIRE((form == 2) == (sub != nullptr), "get returns %p", (void*)sub);
  REQUIRE(K->kvtree_size(sub) == 0 && !K->kvtree_elem_first(sub) && K->kvtree_pack_size(sub) == 4, "the result of the lookup is not treated as empty");
  REQUIRE(!K->kvtree_elem_get_first_val(h, a) && !K->kvtree_get_val(h, a), "a value is found");
  std::string k2 = gen_key(s, cfg(1).key);
  REQUIRE(!K->kvtree_get_kv(h, a, k2.c_str()) && !K->kvtree_getf(h, "%s %s", a, k2.size() < 900 ? k2.c_str() : "x") && !K->kvtree_get(sub, k2.c_str()) && !K->kvtree_elem_get(sub, k2.c_str()), "a subkey is found");
  unsigned long ul = 5; uLong cr = 5; int i = 5; int64_t ll = 5; double d = 5; void* p = &d; char* st = (char*)a;
  REQUIRE(K->kvtree_util_get_bytecount(h, a, &ul) != KVTREE_SUCCESS && ul == 5, "get_bytecount");
  REQUIRE(K->kvtree_util_get_crc32(h, a, &cr) != KVTREE_SUCCESS && cr == 5, "get_crc32");
  REQUIRE(K->kvtree_util_get_int(h, a, &i) != KVTREE_SUCCESS && i == 5, "get_int");
  REQUIRE(K->kvtree_util_get_unsigned_long(h, a, &ul) != KVTREE_SUCCESS && ul == 5, "get_unsigned_long");
  REQUIRE(K->kvtree_util_get_str(h, a, &st) != KVTREE_SUCCESS && st == a, "get_str");
  REQUIRE(K->kvtree_util_get_int64(h, a, &ll) != KVTREE_SUCCESS && ll == 5, "get_int64");
  REQUIRE(K->kvtree_util_get_double(h, a, &d) != KVTREE_SUCCESS && d == 5, "get_double");
  REQUIRE(K->kvtree_util_get_ptr(h, a, &p) != KVTREE_SUCCESS && p == &d, "get_ptr");
  kvtree* e = nullptr;
  if (form == 0) REQUIRE(K->kvtree_unset(h, a) == KVTREE_SUCCESS && K->kvtree_unset_kv(h, a, "x") == KVTREE_SUCCESS && !(e = K->kvtree_extract(h, a)) && !K->kvtree_elem_extract(h, a), "removing a missing key");
  REQUIRE(snapshot(h) == before, "looking up changed the tree");
  x.nontrivial();
}

struct Watch : sys::Hook {
  std::string seen;
  sys::Act before(const sys::Call& c) override {
    switch (c.op) {
      case sys::OPEN: case sys::WRITE: case sys::READ: case sys::TRUNC: case sys::SEEK: case sys::LOCK: case sys::UNLINK: case sys::RENAME: seen += fmt(" %d", (int)c.op); break;
      default: break;
    }
    return sys::Act::pass();
  }
};
static void files(Src& s, Ctx& x) {
  static const char* const variants[] = {"flock", "fcntl", "none", "static"};
  int v = (int)s.draw(3);
  UseLib u(v == 3 ? kv_static() : kv_load(variants[v]));
  std::string dir = scratch() + "/d", p = dir + "/f";
  mkdir(dir.c_str(), 0755);
  TP t = gen_tree(s, cfg(10));
  H h(build(t.get()));
  std::string hb = snapshot(h);
  int state = (int)s.weighted({3, 2, 1, 1});
  std::string content = state == 0 ? encode_file(gen_tree(s, cfg(6)).get()) : state == 2 ? "" : "junk";
  if (state != 1) spew(p, content);
  std::vector<int> fds = open_fds();
  struct stat st0, st1;
  memset(&st0, 0, sizeof st0); memset(&st1, 0, sizeof st1);
  stat(p.c_str(), &st0);
  int op = (int)s.draw(7);
  static const char* const nm[] = {"read_file", "write_file", "read_with_lock", "write_with_lock", "lock_open_read", "write_close_unlock", "write_fd", "read_fd"};
  int mask = 1 + (int)s.draw(op < 4 ? 2 : 6);  // which arguments are NULL: 1 name, 2 tree, 4 descriptor pointer
  const char* name = mask & 1 ? nullptr : p.c_str();
  kvtree* tree = mask & 2 ? nullptr : h.h;
  int own = -1, fd = 55;
  if (op >= 5) {
    if (state == 1) { content = ""; spew(p, content); state = 2; stat(p.c_str(), &st0); }
    own = open(p.c_str(), O_RDWR);
    if (op >= 6 && mask & 4) { if (!(mask & 3)) fd = -1 - (int)s.draw(5); else fd = own; }
    else fd = own;
  }
  x.note("%s: %s with %s%s%s, file %s", variants[v], nm[op], mask & 1 ? "name NULL " : "", mask & 2 ? "tree NULL " : "", mask & 4 ? (op >= 6 ? "bad descriptor" : "descriptor pointer NULL") : "", state == 0 ? "valid" : state == 1 ? "missing" : state == 2 ? "empty" : "junk");
  x.label(nm[op]);
  int rc = KVTREE_SUCCESS;
  Watch w;
  {
    sys::With with(&w);
    switch (op) {
      case 0: rc = K->kvtree_read_file(name, tree); break;
      case 1: rc = K->kvtree_write_file(name, tree); break;
      case 2: rc = K->kvtree_read_with_lock(name, tree); break;
      case 3: rc = K->kvtree_write_with_lock(name, tree); break;
      case 4: rc = K->kvtree_lock_open_read(name, mask & 4 ? nullptr : &fd, tree); break;
      case 5: rc = K->kvtree_write_close_unlock(name, mask & 4 ? nullptr : &fd, tree); break;
      case 6: rc = K->kvtree_write_fd(name, fd, tree) < 0 ? KVTREE_FAILURE : KVTREE_SUCCESS; break;
      default: rc = K->kvtree_read_fd(name, fd, tree) < 0 ? KVTREE_FAILURE : KVTREE_SUCCESS;
    }
  }
  REQUIRE(rc != KVTREE_SUCCESS, "%s succeeds with a NULL argument", nm[op]);
  REQUIRE(w.seen.empty(), "%s with a NULL argument still makes system calls of kinds%s", nm[op], w.seen.c_str());
  REQUIRE(snapshot(h) == hb, "%s with a NULL argument changed the tree", nm[op]);
  if (op == 4 && !(mask & 4)) REQUIRE(fd < 0, "lock_open_read fails but hands out descriptor %d", fd);
  if (op >= 5) {
    REQUIRE(fcntl(own, F_GETFD) >= 0, "%s with a NULL argument closed the caller's descriptor", nm[op]);
    REQUIRE(op != 5 || fd == own, "write_close_unlock with a NULL argument changed the descriptor to %d", fd);
    REQUIRE(lseek(own, 0, SEEK_CUR) == 0, "%s with a NULL argument moved the file position", nm[op]);
    close(own);
  }
  REQUIRE(open_fds() == fds, "%s with a NULL argument leaves a descriptor open", nm[op]);
  stat(p.c_str(), &st1);
  REQUIRE(exists(p) == (state != 1), "%s with a NULL argument %s the file", nm[op], state == 1 ? "created" : "removed");
  if (state != 1) REQUIRE(slurp(p) == content && st0.st_ino == st1.st_ino && st0.st_mtim.tv_nsec == st1.st_mtim.tv_nsec && st0.st_mode == st1.st_mode, "%s with a NULL argument touched the file", nm[op]);
  size_t n = 0;
  for (auto& e : std::filesystem::directory_iterator(dir)) { (void)e; n++; }
  REQUIRE(n == (state != 1), "%s with a NULL argument left other files behind", nm[op]);
  std::filesystem::remove_all(dir);
  x.nontrivial();
}
static std::map<std::string, std::string> dir_files(const std::string& dir) {
  std::map<std::string, std::string> m;
  for (auto& e : std::filesystem::directory_iterator(dir)) m[e.path().filename()] = slurp(e.path().string());
  return m;
}
// the serial gather calls
static void serial_set(Src& s, Ctx& x) {
  UseLib u(s.chance(1, 2) ? kv_static() : kv_load("flock"));
  std::string dir = scratch() + "/d", p = dir + "/p";
  int n = (int)s.draw(5);
  if (s.chance(1, 3)) setenv("KVTREE_ENTRIES_PER_FILE", std::to_string(1 + s.draw(3)).c_str(), 1);
  struct Unset { ~Unset() { unsetenv("KVTREE_ENTRIES_PER_FILE"); } } unset;
  if (s.chance(1, 2)) {
    // writing a NULL tree leaves what writing an empty tree leaves
    x.label("write_to_gather");
    bool nodir = s.chance(1, 8);
    int rc[2];
    size_t before = 0;
    long grown = 0;
    std::map<std::string, std::string> f[2];
    for (int i = 0; i < 2; i++) {
      std::filesystem::remove_all(dir);
      if (!nodir) mkdir(dir.c_str(), 0755);
      H e(K->kvtree_new());
      kvtree* arg = i ? nullptr : e.h;
      std::vector<int> fds = open_fds();
      before = __sanitizer_get_current_allocated_bytes();
      rc[i] = K->kvtree_write_to_gather(p.c_str(), arg, n);
      grown = (long)(__sanitizer_get_current_allocated_bytes() - before);
      REQUIRE(open_fds() == fds, "write_to_gather leaves a descriptor open");
      if (!nodir) f[i] = dir_files(dir);
    }
    x.note("write_to_gather of a NULL tree, %d ranks%s", n, nodir ? ", directory missing" : "");
    REQUIRE(rc[0] == rc[1], "write_to_gather returns %d with an empty tree and %d with a NULL tree", rc[0], rc[1]);
    REQUIRE(f[0] == f[1], "write_to_gather leaves other files with a NULL tree than with an empty tree");
    REQUIRE(grown == 0, "write_to_gather of a NULL tree keeps %ld bytes", grown);
  } else {
    x.label("read_scatter_single");
    std::filesystem::remove_all(dir);
    mkdir(dir.c_str(), 0755);
    T all;
    for (int i = 0; i < n; i++) all.put(str_of_int(i), gen_tree(s, cfg(6)).release());
    H h(build(&all));
    REQUIRE(K->kvtree_write_to_gather(p.c_str(), h, n) == KVTREE_SUCCESS, "write_to_gather fails");
    auto before = dir_files(dir);
    if (s.chance(1, 3) && n) {
      auto it = before.begin();
      std::advance(it, s.draw(before.size() - 1));
      std::string b = it->second;
      if (s.chance(1, 2)) unlink((dir + "/" + it->first).c_str()); else spew(dir + "/" + it->first, b.substr(0, b.size() / 2));
      before = dir_files(dir);
      x.label("damaged set");
    }
    x.note("read_scatter_single of %d ranks into a NULL tree", n);
    std::vector<int> fds = open_fds();
    size_t bytes = __sanitizer_get_current_allocated_bytes();
    K->kvtree_read_scatter_single(p.c_str(), nullptr);
    long grown = (long)(__sanitizer_get_current_allocated_bytes() - bytes);
    REQUIRE(grown == 0, "read_scatter_single into a NULL tree keeps %ld bytes", grown);
    REQUIRE(open_fds() == fds, "read_scatter_single into a NULL tree leaves a descriptor open");
    REQUIRE(dir_files(dir) == before, "read_scatter_single into a NULL tree changed the files");
  }
  std::filesystem::remove_all(dir);
  x.nontrivial();
}
// communication: who sends NULL sends an empty tree; who receives into NULL gets nothing, and the others do not notice
static void comm(Src& s, Ctx& x) {
  World w = make_world(s, x, 7, s.chance(1, 2));
  std::string dir = scratch() + "/d", p = dir + "/p";
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  std::vector<TP> t;
  for (int i = 0; i < w.n; i++) t.push_back(gen_tree(s, cfg(6)));
  unsigned long seg = spread(s, x, t);
  std::vector<char> ns(w.n), nr(w.n);  // NULL to send, to receive into
  std::string who;
  for (int i = 0; i < w.n; i++) {
    ns[i] = s.chance(1, 3);
    nr[i] = s.chance(1, 4);
    who += fmt(" %d:%s%s", i, ns[i] ? "s" : "", nr[i] ? "r" : "");
  }
  int op = (int)s.draw(5), root = (int)s.draw(w.n - 1), shift = (int)s.draw(w.n - 1);
  static const char* const nm[] = {"send and recv", "sendrecv", "bcast", "exchange", "exchange_direction", "write_gather and read_scatter"};
  x.label(nm[op]);
  x.note("%s, %s: NULL trees at%s; root %d, shift %d", nm[op], show_comm(w).c_str(), who.c_str(), root, shift);
  set_segsize(seg ? seg : 100 + s.draw(500));
  int kind = (int)s.draw(1);
  TP none(new T);
  auto given = [&](int r) { return ns[r] ? none.get() : t[r].get(); };
  // a few bytes of state are allocated by the first use of a library
  std::vector<int> fds = open_fds();
  auto body = [&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    int to = (me + shift) % w.n, from = (me - shift + w.n) % w.n;
    H h(build(t[me].get())), d(K->kvtree_new());
    K->kvtree_set_kv(d, "old", "content");
    kvtree* S = ns[me] ? nullptr : h.h;
    kvtree* R = nr[me] ? nullptr : d.h;
    std::string hb = snapshot(h), db = snapshot(d);
    T want;
    bool got = !nr[me];
    switch (op) {
      case 0:
        // a NULL receiver fails at once, so the other side must not send to it
        got = false;
        if (shift == 0) break;
        if (nr[me]) { int rc = K->kvtree_recv(nullptr, from, w.comm); REQUIRE(rc != KVTREE_SUCCESS, "recv into NULL succeeds"); }
        for (int turn = 0; turn < w.n; turn++) {
          int dst = (turn + shift) % w.n;
          if (nr[dst]) continue;
          if (me == turn) { int rc = K->kvtree_send(S, dst, w.comm); REQUIRE(rc == KVTREE_SUCCESS, "send fails"); }
          if (me == dst) {
            int rc = K->kvtree_recv(R, turn, w.comm);
            REQUIRE(rc == KVTREE_SUCCESS, "recv fails");
            std::string df = diff(d, given(turn));
            REQUIRE(df.empty(), "rank %d received from rank %d, which sent %s: %s", me, turn, ns[turn] ? "NULL" : "a tree", df.c_str());
          }
        }
        break;
      case 1:
        K->kvtree_sendrecv(S, to, R, from, w.comm);
        merge(&want, given(from));
        break;
      case 2:
        if (me == root) { K->kvtree_bcast(S, root, w.comm); got = false; }
        else { K->kvtree_bcast(R, root, w.comm); merge(&want, given(root)); }
        break;
      case 3: case 4: {
        H q(K->kvtree_new());
        REQUIRE(K->kvtree_exchange_sendq(nullptr, to, h) != KVTREE_SUCCESS, "a message queued in NULL counts as queued");
        K->kvtree_exchange_sendq(q, to, S);
        if (kind && ns[me]) { K->kvtree_delete(&q.h); q.h = nullptr; }  // nothing queued at all
        K->kvtree_unset_all(d);
        if (op == 3) K->kvtree_exchange(q.h, R, w.comm);
        else K->kvtree_exchange_direction(q.h, R, w.comm, seg & 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
        if (!(kind && ns[from])) want.put(str_of_int(from), clone(given(from)).release());
        if (!got) REQUIRE(K->kvtree_size(d) == 0, "something was received nowhere");
        break;
      }
      default: {
        int rc = K->kvtree_write_gather(p.c_str(), S, w.comm);
        REQUIRE(rc == KVTREE_SUCCESS, "write_gather fails on rank %d", me);
        K->kvtree_unset_all(d);
        rc = K->kvtree_read_scatter(p.c_str(), R, w.comm);
        if (!nr[me]) REQUIRE(rc == KVTREE_SUCCESS, "read_scatter fails on rank %d", me);
        merge(&want, given(me));
      }
    }
    REQUIRE(snapshot(h) == hb, "the tree of rank %d changed", me);
    if (got) { std::string df = diff(d, &want); REQUIRE(df.empty(), "rank %d after %s: %s", me, nm[op], df.c_str()); }
    else if (op == 1 || op == 2) REQUIRE(snapshot(d) == db, "a tree that was not given to the call changed on rank %d", me);
  };
  run_ranks(body);
  if (s.chance(1, 4)) {
    // the same over and over must not need more and more memory
    size_t bytes[3] = {};
    for (int round = 0; round < 4; round++) {
      mpi::begin(s, w.wn, true);
      w.comm = w.comm == MPI_COMM_WORLD ? MPI_COMM_WORLD : mpi::make_comm(w.ranks);
      run_ranks(body);
      if (round) bytes[round - 1] = __sanitizer_get_current_allocated_bytes();
    }
    REQUIRE(!(bytes[2] > bytes[1] && bytes[1] > bytes[0]), "%ld more bytes stay allocated after every round of %s", (long)(bytes[2] - bytes[1]), nm[op]);
  }
  set_segsize(0);
  REQUIRE(open_fds() == fds, "%s leaves descriptors open", nm[op]);
  std::filesystem::remove_all(dir);
  x.nontrivial();
}

Prop pbt::prop = {
  "T08", "exploration",
  "case = (calls) up to ten calls with NULL trees or elements, of 44 kinds, keys and values drawn anew, between changes of a real tree: results as for an empty tree, outputs and "
  "other trees untouched, no memory kept; (missing) all lookups and getters on a key that is missing, has no subtree or an empty one; (files) the single-file read, write and lock "
  "calls with every combination of NULL or invalid arguments over valid, damaged, empty and missing files: failure, no access to any file; (serial_set) a NULL tree written to or "
  "read from a serial gather; (comm) all communication and collective gather calls on up to seven ranks, some of which send or receive into NULL; every case is non-trivial",
  {{"calls", calls, 200000, 4000000}, {"missing", missing, 150000, 3000000}, {"files", files, 60000, 1200000}, {"serial_set", serial_set, 10000, 200000}, {"comm", comm, 4000, 80000}},
  {"what a scalar setter returns for a NULL tree is not claimed"},
};
