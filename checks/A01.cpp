// Running out of memory never yields a wrong tree or a crash.
#include <filesystem>
#include <sys/mman.h>
#include "fault.hpp"
#include "mpih.hpp"

struct Exited { int code; };
struct Obs {
  int ok = 1;          // 1 success, 0 reported failure
  std::string value;   // everything the caller can see
};
static long g_total;   // allocations of the call
struct Arm {
  Arm() { sys::alloc_count = 0; }
  ~Arm() { g_total = sys::alloc_count; sys::alloc_count = -1; }
};
#define ARMED(expr) ([&]() { Arm arm_; return (expr); }())

static std::string canon(const kvtree* h) {
  if (!h) return "NULL";
  TP t = from_real(h);
  std::string o;
  encode_body(t.get(), o);
  return o;
}
static std::string order(const kvtree* h) {
  std::string o;
  for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) { o += K->kvtree_elem_key(e); o += '\0'; }
  return o;
}
static std::string content(const std::string& p) {  // a file as a tree
  if (!exists(p)) return "no file";
  T t;
  switch (decode_file(slurp(p), &t)) {
    case 0: { std::string o = "tree "; encode_body(&t, o); return o; }
    case 1: return "empty";
    default: return "damaged";
  }
}
struct Stderr {  // what was printed there
  int save, m;
  Stderr() { fflush(stderr); save = dup(2); m = memfd_create("err", 0); dup2(m, 2); }
  ~Stderr() { if (save >= 0) end(); close(m); }
  size_t end() { fflush(stderr); dup2(save, 2); close(save); save = -1; struct stat st; fstat(m, &st); return (size_t)st.st_size; }
};
// fail allocations of an operation one at a time; make(dir) prepares everything anew and runs it
static void survey(Src& s, Ctx& x, const char* what, const std::function<Obs()>& op, bool values_on_failure_free = true) {
  sys::alloc_fail_at = 0;
  g_total = 0;
  Obs normal = op();
  long total = g_total;
  x.label(what);
  if (!total) { x.label("no allocation"); return; }
  long tries = std::min<long>(total, thorough ? 40 : 12);
  std::string seen;
  for (long i = 0; i < tries; i++) {
    long at = total <= tries ? i + 1 : 1 + (long)s.draw(total - 1);
    bool real = s.chance(1, 60);
    Obs got;
    int code = 0;
    bool ended = false;
    size_t printed = 0;
    std::vector<int> fds = open_fds();
    int err_key = 0;
    if (real) {
      Stderr err;
      int st = in_child([&]() {
        sys::alloc_fail_at = at;
        Obs o = op();
        if (!o.ok && normal.ok) return 81;
        return o.ok == normal.ok && o.value == normal.value ? 80 : 82;
      });
      printed = err.end();
      if (!WIFEXITED(st) || WEXITSTATUS(st) == 99) FAILK("crash", "%s: the process dies with status %x when allocation %ld of %ld fails", what, st, at, total);
      code = WEXITSTATUS(st);
      x.label("in a real process");
      if (code == 82 || code == 97) FAILK("wrong", "%s succeeds with a wrong result when allocation %ld of %ld fails", what, at, total);
      if (code == 80 || code == 81) { x.label(code == 80 ? "same result" : "failure reported"); continue; }
      ended = true;
    } else {
      Stderr err;
      sys::exit_hook = [](int c) { sys::exit_hook = nullptr; throw Exited{c}; };
      sys::alloc_fail_at = at;
      try { got = op(); }
      catch (Exited& e) { ended = true; code = e.code; }
      catch (...) { sys::exit_hook = nullptr; sys::alloc_fail_at = 0; sys::alloc_count = -1; throw; }
      sys::exit_hook = nullptr;
      sys::alloc_fail_at = 0;
      printed = err.end();
      if (ended) for (int fd : open_fds()) if (!std::binary_search(fds.begin(), fds.end(), fd)) close(fd);
    }
    (void)err_key;
    x.note("%s, allocation %ld of %ld fails: %s", what, at, total, ended ? fmt("exit %d", code).c_str() : got.ok == 0 && normal.ok ? "failure" : "same result");
    if (ended) {
      REQUIRE((code & 0xff) != 0 && code > -2, "%s: the process ends with status %d when allocation %ld of %ld fails", what, code, at, total);
      REQUIRE(printed > 0, "%s: the process ends without a message when allocation %ld of %ld fails", what, at, total);
      x.label("exit with a message");
      continue;
    }
    if (!got.ok && normal.ok) { x.label("failure reported"); continue; }
    REQUIRE(got.ok == normal.ok, "%s returns %d instead of %d when allocation %ld of %ld fails", what, got.ok, normal.ok, at, total);
    REQUIRE(got.value == normal.value, "%s reports success with another result when allocation %ld of %ld fails (%s instead of %s)", what, at, total, quote(got.value, 200).c_str(), quote(normal.value, 200).c_str());
    x.label("same result");
  }
  x.nontrivial();
}
static TreeCfg cfg(unsigned n = 12) {
  TreeCfg c;
  c.maxnodes = n;
  c.key.maxlen = 300;
  c.longrate = 40;
  return c;
}
// trees and scalars
static void trees(Src& s, Ctx& x) {
  TP t = gen_tree(s, cfg()), v = gen_tree(s, cfg());
  std::vector<std::string> path;  // a chain of keys, mostly existing ones
  {
    const T* at = t.get();
    size_t n = 1 + s.draw(3);
    for (size_t i = 0; i < n; i++) {
      std::string k = pick_key(s, at, cfg().key);
      if (k.find(' ') != std::string::npos || k.size() > 900 || k.empty()) k = fmt("k%zu", i);
      path.push_back(k);
      at = at && at->has(k) ? ((T*)at)->at(k) : nullptr;
    }
  }
  const char *a = path[0].c_str(), *b = path.size() > 1 ? path[1].c_str() : "b", *c = path.size() > 2 ? path[2].c_str() : "c";
  int num = gen_int(s);
  uint64_t big = s.draw(UINT64_MAX);
  int op = (int)s.draw(23);
  x.note("op %d on %s", op, show(t.get(), 100).c_str());
  static const char* const names[] = {"new", "set", "setf", "getf", "set_kv", "set_kv_int", "get_kv_int", "unset_kv_int", "merge", "sort", "sort_int", "list_int",
    "unpack", "write_persist", "util_set_str", "util_set_int", "util_set_bytecount", "util_set_double", "util_set_int64", "util_set_ptr", "extract", "util_set_crc32", "util_set_unsigned_long", "util_get_str"};
  std::string packed;
  encode_body(t.get(), packed);
  survey(s, x, names[op], [&]() -> Obs {
    H h(build(t.get())), w(build(v.get()));
    Obs o;
    auto ret = [&](int rc) { o.ok = rc == KVTREE_SUCCESS; o.value = canon(h); };
    auto ptr = [&](const kvtree* p) { o.ok = p != nullptr; o.value = canon(p) + "|" + canon(h); };
    try {
      switch (op) {
        case 0: { H n(ARMED(K->kvtree_new())); o.ok = n.h != nullptr; o.value = n.h ? canon(n) : ""; break; }
        case 1: ptr(ARMED(K->kvtree_set(h, a, w))); w.release(); break;
        case 2: ptr(path.size() == 1 ? ARMED(K->kvtree_setf(h, w, "%s", a)) : path.size() == 2 ? ARMED(K->kvtree_setf(h, w, "%s %d", a, num)) : ARMED(K->kvtree_setf(h, w, "%s %s %d", a, b, num))); w.release(); break;
        case 3: { const kvtree* p = path.size() == 1 ? ARMED(K->kvtree_getf(h, "%s", a)) : path.size() == 2 ? ARMED(K->kvtree_getf(h, "%s %s", a, b)) : ARMED(K->kvtree_getf(h, "%s %s %s", a, b, c)); ptr(p); break; }
        case 4: ptr(ARMED(K->kvtree_set_kv(h, a, b))); break;
        case 5: ptr(ARMED(K->kvtree_set_kv_int(h, a, num))); break;
        case 6: ptr(ARMED(K->kvtree_get_kv_int(h, a, num))); break;
        case 7: ret(ARMED(K->kvtree_unset_kv_int(h, a, num))); break;
        case 8: ret(ARMED(K->kvtree_merge(h, w))); break;
        case 9: ret(ARMED(K->kvtree_sort(h, num & 1 ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING))); o.value += order(h); break;
        case 10: {
          for (int i = 0; i < 5; i++) K->kvtree_set(h, str_of_int(num ^ (i * 7)).c_str(), nullptr);
          T only;
          std::vector<std::string> drop;
          for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) { std::string k = K->kvtree_elem_key(e); char* end; strtol(k.c_str(), &end, 10); if (k.empty() || *end || k.size() > 9) drop.push_back(k); }
          for (auto& k : drop) K->kvtree_unset(h, k.c_str());
          ret(ARMED(K->kvtree_sort_int(h, num & 1 ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING)));
          o.value += order(h);
          break;
        }
        case 11: {
          int n = 0, *l = nullptr;
          for (int i = 0; i < 5; i++) K->kvtree_set(h, str_of_int(num ^ (i * 7)).c_str(), nullptr);
          int rc = ARMED(K->kvtree_list_int(h, &n, &l));
          ret(rc);
          if (l) { for (int i = 0; i < n; i++) o.value += fmt(" %d", l[i]); free(l); }
          break;
        }
        case 12: { K->kvtree_unset_all(w); size_t n = ARMED(K->kvtree_unpack(packed.data(), w)); o.ok = n != 0; o.value = fmt("%zu ", n) + canon(w); break; }
        case 13: { void* buf = nullptr; size_t n = 0; int rc = ARMED(K->kvtree_write_persist(&buf, &n, h)); ret(rc); if (buf) { o.value += std::string((char*)buf, n); free(buf); } break; }
        case 14: ret(ARMED(K->kvtree_util_set_str(h, a, b))); break;
        case 15: ret(ARMED(K->kvtree_util_set_int(h, a, num))); break;
        case 16: ret(ARMED(K->kvtree_util_set_bytecount(h, a, big))); break;
        case 17: ret(ARMED(K->kvtree_util_set_double(h, a, (double)num / 3))); break;
        case 18: ret(ARMED(K->kvtree_util_set_int64(h, a, (int64_t)big))); break;
        case 19: ret(ARMED(K->kvtree_util_set_ptr(h, a, (void*)(uintptr_t)big))); break;
        case 20: { H e(ARMED(K->kvtree_extract(h, a))); o.ok = 1; o.value = canon(e) + canon(h); break; }
        case 21: ret(ARMED(K->kvtree_util_set_crc32(h, a, (uLong)(uint32_t)big))); break;
        case 22: ret(ARMED(K->kvtree_util_set_unsigned_long(h, a, (unsigned long)big))); break;
        default: { char* r = nullptr; int rc = ARMED(K->kvtree_util_get_str(h, a, &r)); ret(rc); if (r && o.ok) o.value += r; break; }
      }
    } catch (Exited&) { h.release(); w.release(); throw; }  // the process is gone
    return o;
  });
}
// files
static void files(Src& s, Ctx& x) {
  static const char* const variants[] = {"flock", "fcntl"};
  UseLib u(kv_load(variants[s.draw(1)]));
  std::string dir = scratch() + "/a", p = dir + "/f";
  TP t = gen_tree(s, cfg()), old = gen_tree(s, cfg());
  int op = (int)s.draw(11);
  static const char* const names[] = {"write_file", "read_file", "write_with_lock", "read_with_lock", "lock_open_read", "write_close_unlock", "write_to_gather", "read_scatter_single", "write_fd", "read_fd", "read_fd from a pipe", "write_fd to a pipe"};
  std::string old_bytes = s.chance(3, 4) ? encode_file(old.get()) : "";
  bool fresh = old_bytes.empty() && s.chance(1, 2);
  T all;
  int n = (int)s.draw(5), per = 1 + (int)s.draw(2);
  for (int i = 0; i < n; i++) all.put(str_of_int(i), gen_tree(s, cfg(5)).release());
  x.note("%s, tree %s, file had %zu bytes", names[op], show(t.get(), 100).c_str(), old_bytes.size());
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  if (op == 7) {
    setenv("KVTREE_ENTRIES_PER_FILE", std::to_string(per).c_str(), 1);
    H h(build(&all));
    K->kvtree_write_to_gather((dir + "/g").c_str(), h, n);
    unsetenv("KVTREE_ENTRIES_PER_FILE");
  }
  survey(s, x, names[op], [&]() -> Obs {
    unlink(p.c_str());
    if (!fresh) spew(p, old_bytes);
    H h(build(t.get()));
    Obs o;
    try {
      switch (op) {
        case 0: o.ok = ARMED(K->kvtree_write_file(p.c_str(), h)) == KVTREE_SUCCESS; o.value = content(p); break;
        case 1: o.ok = ARMED(K->kvtree_read_file(p.c_str(), h)) == KVTREE_SUCCESS; o.value = canon(h); break;
        case 2: o.ok = ARMED(K->kvtree_write_with_lock(p.c_str(), h)) == KVTREE_SUCCESS; o.value = content(p); break;
        case 3: o.ok = ARMED(K->kvtree_read_with_lock(p.c_str(), h)) == KVTREE_SUCCESS; o.value = canon(h); break;
        case 4: { int fd = -1; o.ok = ARMED(K->kvtree_lock_open_read(p.c_str(), &fd, h)) == KVTREE_SUCCESS; o.value = canon(h); if (fd >= 0) close(fd); break; }
        case 5: {
          int fd = -1;
          H d(K->kvtree_new());
          if (K->kvtree_lock_open_read(p.c_str(), &fd, d) != KVTREE_SUCCESS) throw Discard();
          o.ok = ARMED(K->kvtree_write_close_unlock(p.c_str(), &fd, h)) == KVTREE_SUCCESS;
          if (fd >= 0) close(fd);
          o.value = content(p);
          break;
        }
        case 6: {
          std::filesystem::remove_all(dir);
          mkdir(dir.c_str(), 0755);
          H g(build(&all));
          setenv("KVTREE_ENTRIES_PER_FILE", std::to_string(per).c_str(), 1);
          o.ok = ARMED(K->kvtree_write_to_gather((dir + "/g").c_str(), g, n)) == KVTREE_SUCCESS;
          unsetenv("KVTREE_ENTRIES_PER_FILE");
          o.value = content(dir + "/g");
          for (int i = 0; i < n; i++) { std::string f = dir + "/g.0." + str_of_int(i); if (exists(f)) o.value += fmt(" %d:", i) + content(f); }
          break;
        }
        case 7: o.ok = ARMED(K->kvtree_read_scatter_single((dir + "/g").c_str(), h)) == KVTREE_SUCCESS; o.value = canon(h); break;
        case 8: { int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); ssize_t k = ARMED(K->kvtree_write_fd(p.c_str(), fd, h)); close(fd); o.ok = k >= 0; o.value = content(p); break; }
        case 10: case 11: {  // well below what a pipe holds
          int q[2];
          if (pipe(q)) throw Discard();
          if (op == 10) {
            if (old_bytes.size() > 30000 || write(q[1], old_bytes.data(), old_bytes.size()) != (ssize_t)old_bytes.size()) { close(q[0]); close(q[1]); throw Discard(); }
            close(q[1]);
            ssize_t k = ARMED(K->kvtree_read_fd("pipe", q[0], h));
            o.ok = k >= 0; o.value = canon(h) + fmt("%zd", k);
          } else {
            if (packed_size(t.get()) > 30000) { close(q[0]); close(q[1]); throw Discard(); }
            ssize_t k = ARMED(K->kvtree_write_fd("pipe", q[1], h));
            close(q[1]);
            std::string got;
            char b[4096];
            for (ssize_t m; (m = read(q[0], b, sizeof b)) > 0;) got.append(b, (size_t)m);
            T f;
            o.ok = k >= 0; o.value = fmt("%zd ", k);
            if (decode_file(got, &f) == 0) encode_body(&f, o.value);
            else o.value += "damaged";
          }
          close(q[0]);
          break;
        }
        default: { int fd = open(p.c_str(), O_RDWR | O_CREAT, 0644); ssize_t k = ARMED(K->kvtree_read_fd(p.c_str(), fd, h)); close(fd); o.ok = k >= 0; o.value = canon(h) + fmt("%zd", k); break; }
      }
    } catch (Exited&) { h.release(); throw; }
    return o;
  });
  std::filesystem::remove_all(dir);
}
// collective calls: one rank runs out of memory; the whole job is a forked process
static void collective(Src& s, Ctx& x) {
  int n = 1 + (int)s.draw(4), victim = (int)s.draw(n - 1);
  std::string dir = scratch() + "/a", p = dir + "/p";
  std::vector<TP> t;
  for (int i = 0; i < n; i++) t.push_back(gen_tree(s, cfg(5)));
  int op = (int)s.draw(6);
  static const char* const names[] = {"write_gather", "read_scatter", "bcast", "exchange", "sendrecv", "exchange_direction", "send/recv"};
  unsigned long seg = spread(s, x, t);
  set_segsize(seg ? seg : 100 + s.draw(s.chance(1, 2) ? 60 : 400));
  std::filesystem::remove_all(dir);
  mkdir(dir.c_str(), 0755);
  auto job = [&](bool write_only) {
    std::vector<Obs> o(n);
    mpi::begin(s, n, true);
    static int vict;
    vict = victim;
    sys::alloc_filter = []() { return mpi::me() == vict; };
    run_ranks([&](int r) {
      H h(build(t[r].get())), d(K->kvtree_new());
      int rc = KVTREE_SUCCESS;
      if (r == victim && !write_only) sys::alloc_count = 0;
      switch (write_only ? 0 : op) {
        case 0: rc = K->kvtree_write_gather(p.c_str(), h, MPI_COMM_WORLD); break;
        case 1: rc = K->kvtree_read_scatter(p.c_str(), d, MPI_COMM_WORLD); break;
        case 2: rc = K->kvtree_bcast(h, n / 2, MPI_COMM_WORLD); break;
        case 3: case 5: {
          H q(K->kvtree_new());
          K->kvtree_exchange_sendq(q, (r + 1) % n, h);
          K->kvtree_exchange_sendq(q, (r + n - 1) % n, h);
          rc = op == 3 ? K->kvtree_exchange(q, d, MPI_COMM_WORLD) : K->kvtree_exchange_direction(q, d, MPI_COMM_WORLD, KVTREE_EXCHANGE_RIGHT);
          break;
        }
        case 4: rc = K->kvtree_sendrecv(h, (r + 1) % n, d, (r + n - 1) % n, MPI_COMM_WORLD); break;
        default:
          if (n > 1 && r == 0) rc = K->kvtree_send(h, n - 1, MPI_COMM_WORLD);
          else if (n > 1 && r == n - 1) rc = K->kvtree_recv(d, 0, MPI_COMM_WORLD);
      }
      if (r == victim) { g_total = sys::alloc_count; sys::alloc_count = -1; }
      o[r].ok = rc == KVTREE_SUCCESS;
      o[r].value = canon(d) + canon(h);
      MPI_Barrier(MPI_COMM_WORLD);
      if (!write_only && op == 0 && o[r].ok) { H e(K->kvtree_new()); K->kvtree_read_scatter(p.c_str(), e, MPI_COMM_WORLD); o[r].value = canon(e); }
    });
    sys::alloc_filter = nullptr;
    return o;
  };
  if (op == 1) job(true);
  sys::alloc_fail_at = 0;
  std::vector<Obs> normal = job(false);
  long total = g_total;
  x.label(names[op]);
  for (int i = 0; i < 3 && total > 0; i++) {
    long at = 1 + (long)s.draw(total - 1);
    Stderr err;
    int st = in_child([&]() {
      sys::alloc_fail_at = at;
      std::vector<Obs> o = job(false);
      int res = 80;
      for (int r = 0; r < n; r++) {
        if (!o[r].ok && normal[r].ok) res = std::max(res, 81);
        else if (o[r].ok != normal[r].ok || o[r].value != normal[r].value) res = 82;
      }
      return res;
    });
    size_t printed = err.end();
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    x.note("%s on %d ranks, allocation %ld of %ld of rank %d fails: status %d", names[op], n, at, total, victim, code);
    REQUIRE(code >= 0 && code != 99, "%s: the process dies with status %x when allocation %ld of %ld of rank %d fails", names[op], st, at, total, victim);
    REQUIRE(code != 82 && code != 97, "%s: wrong result when allocation %ld of %ld of rank %d fails", names[op], at, total, victim);
    REQUIRE(code != 0, "%s: the process ends with status 0 when allocation %ld of %ld of rank %d fails", names[op], at, total, victim);
    if (code != 80 && code != 81 && code != 96) REQUIRE(printed > 0, "%s: the process ends without a message when allocation %ld of %ld of rank %d fails", names[op], at, total, victim);
    x.label(code == 80 ? "same result" : code == 81 ? "failure reported" : "exit with a message");
    x.nontrivial();
  }
  set_segsize(0);
  std::filesystem::remove_all(dir);
}

Prop pbt::prop = {
  "A01", "fault_enumeration",
  "case = one call (24 tree and scalar calls, 10 file calls, 7 collective ones on up to five ranks) with generated arguments; its allocations are counted and each "
  "(or a drawn sample of them when there are more than twelve) is made to fail, one per run, and the outcome compared with the undisturbed run: same result, "
  "reported failure, or a non-zero exit with a message; non-trivial: at least one allocation failed",
  {{"trees", trees, 40000, 400000}, {"files", files, 12000, 120000}, {"collective", collective, 800, 8000}},
  {"most process exits are simulated by unwinding out of the call, one in sixty and all collective ones are real", "allocations made inside libc (directory streams, stdio) are not failed"},
};
