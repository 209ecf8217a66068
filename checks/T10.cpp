// Threads that use different trees do not disturb each other.
// The library of this check is instrumented by ThreadSanitizer (the harness is not).
#include <filesystem>
#include <pthread.h>
#include <sys/stat.h>
#include "ops.hpp"

extern "C" const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:report_thread_leaks=0:report_destroy_locked=0:"
         "handle_abort=0:history_size=4:allocator_may_return_null=1";
}
// the C library's own hidden state is not instrumented
extern "C" void __tsan_write8(void*);
extern "C" char* strtok(char* s, const char* d) noexcept {
  static char* rest;
  __tsan_write8(&rest);
  return strtok_r(s, d, &rest);
}
enum What {
  SET, UNSET, EXTRACT, SETF, GETF, KV, KV_INT, UNSET_KV, SCALAR, GETTER, SORT, SORT_INT, LIST_INT, PACK, PERSIST, FILE_RW, LOCKED, RMW, GATHER, MERGE, SELF_MERGE,
  ELEMS, EXTRACT_ELEM, PRINT, LOG, MISSING, SHARED_GET, SHARED_WALK, SHARED_PACK, SHARED_WRITE, SHARED_LIST, WHATS
};
static const char* const names[] = {"set", "unset", "extract", "setf", "getf", "set_kv", "set_kv_int", "unset_kv", "scalar setter", "scalar getter", "sort", "sort_int", "list_int", "pack and unpack",
  "write_persist", "write_file and read_file", "locked write and read", "read-modify-write", "gather file set", "merge", "merge a copy", "iterate", "extract an element", "print", "log", "read a missing file",
  "look up in a shared tree", "walk a shared tree", "pack a shared tree", "write a shared tree", "list a shared tree"};
static_assert(sizeof names / sizeof *names == WHATS, "");
struct Op { int what; std::string a, b; int i; uint64_t u; };
struct Thread {
  std::vector<Op> script;
  TP t;
  std::string dir, trace;
  int times;
  const kvtree* shared;
  pthread_barrier_t* start;
  pthread_t id;
};
static std::string str(const char* c) { return c ? std::string("=") + c + ";" : "NULL;"; }
static std::string num(long long v) { return fmt("%lld;", v); }
static void step(const Op& o, kvtree* h, Thread& me, std::string& out) {
  const char *a = o.a.c_str(), *b = o.b.c_str();
  std::string p = me.dir + "/f";
  const kvtree* sh = me.shared;
  out += names[o.what];
  out += ":";
  switch (o.what) {
    case SET: { kvtree* v = K->kvtree_new(); K->kvtree_set(v, b, nullptr); out += num(K->kvtree_set(h, a, v) == v); break; }
    case UNSET: out += num(K->kvtree_unset(h, a)); break;
    case EXTRACT: { kvtree* v = K->kvtree_extract(h, a); if (v) out += snapshot(v); K->kvtree_delete(&v); break; }
    case SETF: {
      kvtree* v = K->kvtree_new();
      const kvtree* r = o.i % 3 == 0 ? K->kvtree_setf(h, v, "%s %d", a, o.i) : o.i % 3 == 1 ? K->kvtree_setf(h, v, "%lu %s %f", (unsigned long)o.u, b, (double)o.i / 3) : K->kvtree_setf(h, v, "%#x %lld %p", (unsigned)o.i, (long long)o.u, (void*)(uintptr_t)o.u);
      out += num(r == v);
      break;
    }
    case GETF: {
      const kvtree* r = o.i % 3 == 0 ? K->kvtree_getf(h, "%s %d", a, o.i) : o.i % 3 == 1 ? K->kvtree_getf(h, "%lu %s %f", (unsigned long)o.u, b, (double)o.i / 3) : K->kvtree_getf(h, "%s %s", a, b);
      out += num(r != nullptr) + num(K->kvtree_size(r));
      break;
    }
    case KV: { kvtree* r = K->kvtree_set_kv(h, a, b); out += num(r != nullptr) + num(K->kvtree_get_kv(h, a, b) == r); break; }
    case KV_INT: { kvtree* r = K->kvtree_set_kv_int(h, a, o.i); out += num(r != nullptr) + num(K->kvtree_get_kv_int(h, a, o.i) == r); break; }
    case UNSET_KV: out += num(o.i & 1 ? K->kvtree_unset_kv(h, a, b) : K->kvtree_unset_kv_int(h, a, o.i)); break;
    case SCALAR:
      switch (o.i & 7) {
        case 0: K->kvtree_util_set_int(h, a, (int)o.u); break;
        case 1: K->kvtree_util_set_str(h, a, b); break;
        case 2: K->kvtree_util_set_bytecount(h, a, o.u); break;
        case 3: K->kvtree_util_set_double(h, a, (double)(int)o.u / 7); break;
        case 4: K->kvtree_util_set_ptr(h, a, (void*)(uintptr_t)o.u); break;
        case 5: K->kvtree_util_set_int64(h, a, (int64_t)o.u); break;
        case 6: K->kvtree_util_set_crc32(h, a, (uint32_t)o.u); break;
        default: K->kvtree_util_set_unsigned_long(h, a, o.u);
      }
      [[fallthrough]];
    case GETTER: {
      int v = -1; char* c = nullptr; unsigned long l = 1; double d = 2; void* q = nullptr; int64_t w = 3; uLong crc = 4;
      switch (o.i & 7) {
        case 0: out += num(K->kvtree_util_get_int(h, a, &v)) + num(v); break;
        case 1: out += num(K->kvtree_util_get_str(h, a, &c)) + str(c); break;
        case 2: out += num(K->kvtree_util_get_bytecount(h, a, &l)) + num(l); break;
        case 3: out += num(K->kvtree_util_get_double(h, a, &d)) + fmt("%.17g;", d); break;
        case 4: out += num(K->kvtree_util_get_ptr(h, a, &q)) + num((long long)(uintptr_t)q); break;
        case 5: out += num(K->kvtree_util_get_int64(h, a, &w)) + num(w); break;
        case 6: out += num(K->kvtree_util_get_crc32(h, a, &crc)) + num(crc); break;
        default: out += num(K->kvtree_util_get_unsigned_long(h, a, &l)) + num(l);
      }
      break;
    }
    case SORT: out += num(K->kvtree_sort(h, o.i & 1 ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING)) + snapshot(h); break;
    case SORT_INT: { H d(K->kvtree_new()); for (int i = 0; i < 6; i++) K->kvtree_set_kv_int(d, "k", (int)(o.u >> (i * 8))); kvtree* k = K->kvtree_get(d, "k"); K->kvtree_sort_int(k, o.i & 1 ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING); out += snapshot(k); break; }
    case LIST_INT: { H d(K->kvtree_new()); for (int i = 0; i < 6; i++) K->kvtree_set_kv_int(d, "k", (int)(o.u >> (i * 8))); int n = 0, *v = nullptr; K->kvtree_list_int(K->kvtree_get(d, "k"), &n, &v); for (int i = 0; i < n; i++) out += num(v[i]); free(v); break; }
    case PACK: {
      size_t n = K->kvtree_pack_size(h);
      std::string buf(n, '\0');
      out += num(K->kvtree_pack(&buf[0], h)) + buf;
      H d(K->kvtree_new());
      out += num(K->kvtree_unpack(buf.data(), d)) + snapshot(d);
      break;
    }
    case PERSIST: { void* buf = nullptr; size_t n = 0; out += num(K->kvtree_write_persist(&buf, &n, h)); out += std::string((char*)buf, n); free(buf); break; }
    case FILE_RW: { out += num(K->kvtree_write_file(p.c_str(), h)); H d(K->kvtree_new()); out += num(K->kvtree_read_file(p.c_str(), d)) + snapshot(d); break; }
    case LOCKED: { out += num(K->kvtree_write_with_lock(p.c_str(), h)); H d(K->kvtree_new()); out += num(K->kvtree_read_with_lock(p.c_str(), d)) + snapshot(d); break; }
    case RMW: {
      int fd = -1;
      H d(K->kvtree_new());
      out += num(K->kvtree_lock_open_read(p.c_str(), &fd, d)) + snapshot(d);
      K->kvtree_set_kv(d, a, b);
      out += num(K->kvtree_write_close_unlock(p.c_str(), &fd, d)) + num(fd);
      break;
    }
    case GATHER: {
      H g(K->kvtree_new()), d(K->kvtree_new());
      int n = 1 + (o.i & 3);
      for (int i = 0; i < n; i++) { kvtree* v = K->kvtree_new(); if (i == 0) K->kvtree_merge(v, h); else K->kvtree_set_kv(v, a, b); K->kvtree_set(g, str_of_int(i).c_str(), v); }
      out += num(K->kvtree_write_to_gather((me.dir + "/g").c_str(), g, n)) + num(K->kvtree_read_scatter_single((me.dir + "/g").c_str(), d)) + snapshot(d);
      break;
    }
    case MERGE: out += num(K->kvtree_merge(h, sh)); break;
    case SELF_MERGE: { H d(K->kvtree_new()); K->kvtree_merge(d, h); out += snapshot(d); break; }
    case ELEMS: for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) out += str(K->kvtree_elem_key(e)) + num(K->kvtree_elem_key_int(e)) + num(K->kvtree_size(K->kvtree_elem_hash(e))); break;
    case EXTRACT_ELEM: { kvtree_elem* e = o.i & 1 ? K->kvtree_elem_extract(h, a) : K->kvtree_elem_extract_int(h, o.i); out += num(e != nullptr); free_elem(e); break; }
    case PRINT: K->kvtree_print(h, o.i & 7); K->kvtree_print_mode(h, o.i & 7, KVTREE_PRINT_KEYVAL); break;
    case LOG: K->kvtree_log(h, 1, o.i & 7); break;
    case MISSING: { H d(K->kvtree_new()); out += num(K->kvtree_read_file((me.dir + "/nothing").c_str(), d)); break; }
    case SHARED_GET: out += num(K->kvtree_size(K->kvtree_get(sh, a))) + num(K->kvtree_get_kv(sh, a, b) != nullptr) + str(K->kvtree_elem_get_first_val(sh, a)) + num(K->kvtree_elem_get(sh, b) != nullptr) + str(K->kvtree_get_val(sh, a)) + num(K->kvtree_getf(sh, "%s %s", a, b) != nullptr); break;
    case SHARED_WALK: out += snapshot(sh); break;
    case SHARED_PACK: { size_t n = K->kvtree_pack_size(sh); std::string buf(n, '\0'); K->kvtree_pack(&buf[0], sh); out += buf; break; }
    case SHARED_WRITE: out += num(K->kvtree_write_file((me.dir + "/s").c_str(), sh)) + slurp(me.dir + "/s"); break;
    default: { int n = 0, *v = nullptr; out += num(K->kvtree_list_int(K->kvtree_get(sh, "ints"), &n, &v)); for (int i = 0; i < n; i++) out += num(v[i]); free(v); }
  }
  out += "\n";
}
static void play(Thread& me) {
  H h(build(me.t.get()));
  for (const Op& o : me.script) { std::string out; step(o, h, me, out); me.trace += out; }
  me.trace += "end:" + snapshot(h) + "\n";
}
static void* run(void* p) {
  Thread& me = *(Thread*)p;
  pthread_barrier_wait(me.start);
  for (int i = 0; i < me.times; i++) play(me);
  return nullptr;
}
static void threads(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = 10; c.key.maxlen = 200; c.longrate = 60;
  TP st = gen_tree(s, c);
  for (int i = 0; i < 5; i++) st->sub("ints")->put(str_of_int(gen_int(s)), new T);
  H sh(build(st.get()));
  std::string before = snapshot(sh);
  int n = 2 + (int)s.draw(2);
  std::vector<std::string> pool;
  collect_keys(st.get(), pool);
  std::vector<Thread> th(n);
  pthread_barrier_t start;
  pthread_barrier_init(&start, nullptr, n);
  for (int i = 0; i < n; i++) {
    Thread& t = th[i];
    t.t = s.chance(1, 2) ? related(s, st.get(), c, 4) : gen_tree(s, c);
    t.shared = sh;
    t.start = &start;
    t.dir = scratch() + fmt("/t%d", i);
    size_t k = 1 + s.draw(14);
    for (size_t q = 0; q < k; q++) {
      Op o;
      o.what = (int)s.draw(WHATS - 1);
      do o.a = !pool.empty() && s.chance(1, 2) ? s.pick(pool) : gen_key(s, c.key); while (o.a.size() > 900);
      o.b = s.chance(1, 2) ? fmt("value %d", (int)s.draw(3)) : "v";
      o.i = gen_int(s);
      o.u = s.draw(UINT64_MAX);
      x.label(names[o.what]);
      x.note("thread %d: %s %s %s %d %llu", i, names[o.what], quote(o.a).c_str(), o.b.c_str(), o.i, (unsigned long long)o.u);
      t.script.push_back(o);
    }
  }
  auto fresh = [&] { for (Thread& t : th) { std::filesystem::remove_all(t.dir); mkdir(t.dir.c_str(), 0755); t.trace.clear(); } };
  // each one alone
  fresh();
  std::vector<std::string> alone;
  int times = s.chance(1, 12) ? 20 : 1;
  for (Thread& t : th) { t.times = times; for (int i = 0; i < times; i++) play(t); alone.push_back(t.trace); }
  // all together
  fresh();
  for (Thread& t : th) REQUIRE(pthread_create(&t.id, nullptr, run, &t) == 0, "pthread_create fails");
  for (Thread& t : th) pthread_join(t.id, nullptr);
  pthread_barrier_destroy(&start);
  for (int i = 0; i < n; i++) {
    if (th[i].trace == alone[i]) continue;
    size_t q = 0, line = 0;
    while (q < alone[i].size() && q < th[i].trace.size() && alone[i][q] == th[i].trace[q]) { if (alone[i][q] == '\n') line = q + 1; q++; }
    FAILK("results", "thread %d of %d: alone %s, among others %s", i, n, quote(alone[i].substr(line, 200)).c_str(), quote(th[i].trace.substr(line, 200)).c_str());
  }
  REQUIRE(snapshot(sh) == before, "the tree that the threads only read changed");
  for (Thread& t : th) std::filesystem::remove_all(t.dir);
  x.nontrivial();
}

Prop pbt::prop = {
  "T10", "exploration",
  "case = two or three threads with scripts of up to 15 calls of 31 kinds (tree, format, scalar, sort, list, pack, file, lock and gather calls) on trees and files of their own and read-only calls "
  "on a tree they share; every script is first run alone: the results of every call must be the same when all run together, and ThreadSanitizer, which watches the library, must see no "
  "unsynchronised access; every case is non-trivial",
  {{"threads", threads, 32000, 320000}},
  {"threads run freely: a schedule is not part of the replay", "permission bits of new files are not compared (the umask belongs to the process)"},
};
