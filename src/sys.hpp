// Interposition of the library's system calls and allocations (ld --wrap).
#pragma once
#include <cstddef>
#include <cstdint>
#include <sys/types.h>
namespace sys {
enum Op { OPEN, READ, WRITE, CLOSE, SYNC, TRUNC, SEEK, LOCK, UNLOCK, ACCESS, RENAME, UNLINK, NOPS };
extern const char* const op_name[NOPS];
struct Call {
  Op op;
  int fd = -1;
  const char* path = nullptr;
  size_t size = 0;
  int flags = 0;      // open flags
  bool exclusive = false, blocking = false;  // locks
};
struct Act {
  enum Kind { PASS, FAIL, LIMIT, RET } kind = PASS;
  int err = 0;       // FAIL
  size_t n = 0;      // LIMIT: transfer at most n bytes; RET: return n without doing anything
  static Act pass() { return Act(); }
  static Act fail(int e) { Act a; a.kind = FAIL; a.err = e; return a; }
  static Act limit(size_t k) { Act a; a.kind = LIMIT; a.n = k; return a; }
  static Act ret(size_t k) { Act a; a.kind = RET; a.n = k; return a; }
};
struct Hook {
  virtual ~Hook() {}
  virtual Act before(const Call&) { return Act(); }
  virtual void after(const Call&, long, int) {}
  // a blocking lock request that would block; return true to try again, false to block for real
  virtual bool would_block(const Call&) { return false; }
};
extern Hook* hook;
// allocations of the library
extern long alloc_count;     // counts while >= 0
extern long alloc_fail_at;   // 1-based; 0: never
extern bool (*alloc_filter)();  // when set, only allocations for which it is true count
// called instead of exit() and its relatives; may throw
extern void (*exit_hook)(int code);
struct With {
  Hook* old;
  explicit With(Hook* h) : old(hook) { hook = h; }
  ~With() { hook = old; }
};
}
