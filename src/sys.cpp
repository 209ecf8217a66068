#include "sys.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cstring>
#include <sanitizer/allocator_interface.h>
namespace sys {
const char* const op_name[NOPS] = {"open", "read", "write", "close", "sync", "truncate", "seek", "lock", "unlock", "access", "rename", "unlink"};
Hook* hook = nullptr;
long alloc_count = -1;
long alloc_fail_at = 0;
bool (*alloc_filter)() = nullptr;
void (*exit_hook)(int) = nullptr;
}
using namespace sys;

// run the call under the hook; the callable does the real work
template <class F> static long guard(Call& c, F real) {
  if (!hook) return real((size_t)-1);
  Hook* h = hook;
  hook = nullptr;  // nothing below is interposed
  Act a = h->before(c);
  long r;
  int e = 0;
  if (a.kind == Act::FAIL) { r = -1; e = a.err; }
  else if (a.kind == Act::RET) { r = (long)a.n; }
  else { errno = 0; r = real(a.kind == Act::LIMIT ? a.n : (size_t)-1); e = errno; }
  h->after(c, r, e);
  hook = h;
  errno = e;
  return r;
}
// locks: a blocking request is first tried without blocking, so that the hook can decide
template <class NB, class BL> static long lock_op(Call& c, NB nb, BL bl) {
  Hook* h = hook;
  return guard(c, [&](size_t) -> long {
    if (!h || !c.blocking) return c.blocking ? bl() : nb();
    for (;;) {
      long r = nb();
      if (r == 0 || (errno != EWOULDBLOCK && errno != EAGAIN && errno != EACCES)) return r;
      if (!h->would_block(c)) return bl();
    }
  });
}
#define MINSZ(n, lim) ((n) < (lim) ? (n) : (lim))
extern "C" {
int __real_open(const char*, int, ...);
int __real_openat(int, const char*, int, ...);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __real_writev(int, const struct iovec*, int);
int __real_close(int);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_ftruncate(int, off_t);
int __real_truncate(const char*, off_t);
off_t __real_lseek(int, off_t, int);
int __real_flock(int, int);
int __real_fcntl(int, int, ...);
int __real_lockf(int, int, off_t);
int __real_access(const char*, int);
int __real_rename(const char*, const char*);
int __real_unlink(const char*);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
void __real__Exit(int) __attribute__((noreturn));
void __real_abort() __attribute__((noreturn));
char* __real_strndup(const char*, size_t);

int __wrap_open(const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  Call c; c.op = OPEN; c.path = p; c.flags = fl;
  return (int)guard(c, [&](size_t) { return (long)__real_open(p, fl, m); });
}
int __wrap_open64(const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  return __wrap_open(p, fl, m);
}
int __wrap_creat(const char* p, mode_t m) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_openat(int d, const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  Call c; c.op = OPEN; c.path = p; c.flags = fl;
  return (int)guard(c, [&](size_t) { return (long)__real_openat(d, p, fl, m); });
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  Call c; c.op = READ; c.fd = fd; c.size = n;
  return guard(c, [&](size_t lim) { return (long)__real_read(fd, b, MINSZ(n, lim)); });
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  Call c; c.op = WRITE; c.fd = fd; c.size = n;
  return guard(c, [&](size_t lim) { return (long)__real_write(fd, b, MINSZ(n, lim)); });
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
  Call c; c.op = READ; c.fd = fd; c.size = n;
  return guard(c, [&](size_t lim) { return (long)__real_pread(fd, b, MINSZ(n, lim), o); });
}
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) {
  Call c; c.op = WRITE; c.fd = fd; c.size = n;
  return guard(c, [&](size_t lim) { return (long)__real_pwrite(fd, b, MINSZ(n, lim), o); });
}
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
static size_t iov_total(const struct iovec* v, int k) { size_t n = 0; for (int i = 0; i < k; i++) n += v[i].iov_len; return n; }
ssize_t __wrap_readv(int fd, const struct iovec* v, int k) {
  Call c; c.op = READ; c.fd = fd; c.size = iov_total(v, k);
  return guard(c, [&](size_t lim) {
    if (lim >= c.size) return (long)__real_readv(fd, v, k);
    int i = 0; while (i < k && v[i].iov_len == 0) i++;
    return i < k ? (long)__real_read(fd, v[i].iov_base, MINSZ(v[i].iov_len, lim)) : 0L; });
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int k) {
  Call c; c.op = WRITE; c.fd = fd; c.size = iov_total(v, k);
  return guard(c, [&](size_t lim) {
    if (lim >= c.size) return (long)__real_writev(fd, v, k);
    int i = 0; while (i < k && v[i].iov_len == 0) i++;
    return i < k ? (long)__real_write(fd, v[i].iov_base, MINSZ(v[i].iov_len, lim)) : 0L; });
}
int __wrap_close(int fd) {
  Call c; c.op = CLOSE; c.fd = fd;
  return (int)guard(c, [&](size_t) { return (long)__real_close(fd); });
}
int __wrap_fsync(int fd) {
  Call c; c.op = SYNC; c.fd = fd;
  return (int)guard(c, [&](size_t) { return (long)__real_fsync(fd); });
}
int __wrap_fdatasync(int fd) {
  Call c; c.op = SYNC; c.fd = fd;
  return (int)guard(c, [&](size_t) { return (long)__real_fdatasync(fd); });
}
int __wrap_ftruncate(int fd, off_t n) {
  Call c; c.op = TRUNC; c.fd = fd; c.size = n;
  return (int)guard(c, [&](size_t) { return (long)__real_ftruncate(fd, n); });
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_truncate(const char* p, off_t n) {
  Call c; c.op = TRUNC; c.path = p; c.size = n;
  return (int)guard(c, [&](size_t) { return (long)__real_truncate(p, n); });
}
off_t __wrap_lseek(int fd, off_t o, int w) {
  Call c; c.op = SEEK; c.fd = fd;
  return guard(c, [&](size_t) { return (long)__real_lseek(fd, o, w); });
}
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }

int __wrap_flock(int fd, int op) {
  Call c; c.fd = fd;
  int kind = op & ~LOCK_NB;
  c.op = kind == LOCK_UN ? UNLOCK : LOCK;
  c.exclusive = kind == LOCK_EX;
  c.blocking = c.op == LOCK && !(op & LOCK_NB);
  return (int)lock_op(c, [&]() { return (long)__real_flock(fd, c.op == UNLOCK ? op : (op | LOCK_NB)); }, [&]() { return (long)__real_flock(fd, op); });
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
  int nbcmd = cmd;
  bool lk = false, blocking = false;
  if (cmd == F_SETLK) lk = true;
  else if (cmd == F_SETLKW) { lk = blocking = true; nbcmd = F_SETLK; }
#ifdef F_OFD_SETLK
  else if (cmd == F_OFD_SETLK) lk = true;
  else if (cmd == F_OFD_SETLKW) { lk = blocking = true; nbcmd = F_OFD_SETLK; }
#endif
  if (!lk) return __real_fcntl(fd, cmd, arg);
  Call c; c.fd = fd;
  short t = ((struct flock*)arg)->l_type;
  c.op = t == F_UNLCK ? UNLOCK : LOCK;
  c.exclusive = t == F_WRLCK;
  c.blocking = blocking && c.op == LOCK;
  return (int)lock_op(c, [&]() { return (long)__real_fcntl(fd, nbcmd, arg); }, [&]() { return (long)__real_fcntl(fd, cmd, arg); });
}
int __wrap_fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
  return __wrap_fcntl(fd, cmd, arg);
}
int __wrap_lockf(int fd, int cmd, off_t len) {
  Call c; c.fd = fd;
  c.op = cmd == F_ULOCK ? UNLOCK : LOCK;
  c.exclusive = true;
  c.blocking = cmd == F_LOCK;
  return (int)lock_op(c, [&]() { return (long)__real_lockf(fd, cmd == F_LOCK ? F_TLOCK : cmd, len); }, [&]() { return (long)__real_lockf(fd, cmd, len); });
}
int __wrap_access(const char* p, int m) {
  Call c; c.op = ACCESS; c.path = p;
  return (int)guard(c, [&](size_t) { return (long)__real_access(p, m); });
}
int __wrap_rename(const char* a, const char* b) {
  Call c; c.op = RENAME; c.path = a;
  return (int)guard(c, [&](size_t) { return (long)__real_rename(a, b); });
}
int __wrap_unlink(const char* a) {
  Call c; c.op = UNLINK; c.path = a;
  return (int)guard(c, [&](size_t) { return (long)__real_unlink(a); });
}
int __wrap_usleep(unsigned) { return 0; }
unsigned __wrap_sleep(unsigned) { return 0; }
int __wrap_nanosleep(const struct timespec*, struct timespec*) { return 0; }

static bool alloc_fails() {
  if (alloc_count < 0) return false;
  if (alloc_filter && !alloc_filter()) return false;
  alloc_count++;
  if (alloc_count == alloc_fail_at) { errno = ENOMEM; return true; }
  return false;
}
// a library that allocates without end is stopped before it takes the machine down
static inline void runaway() {
  static unsigned k = 0;
  if ((++k & 255) == 0 && __sanitizer_get_current_allocated_bytes() > 2500000000ull) {
    fprintf(stderr, "more than 2.5 GB are allocated\n");
    __real_abort();
  }
}
void* __wrap_malloc(size_t n) { runaway(); return alloc_fails() ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { runaway(); return alloc_fails() ? nullptr : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { runaway(); return alloc_fails() ? nullptr : __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { runaway(); return alloc_fails() ? nullptr : __real_strdup(s); }
char* __wrap_strndup(const char* s, size_t n) { return alloc_fails() ? nullptr : __real_strndup(s, n); }
void __wrap_exit(int c) { if (exit_hook) exit_hook(c); __real_exit(c); }
void __wrap__exit(int c) { if (exit_hook) exit_hook(c); __real__exit(c); }
void __wrap__Exit(int c) { if (exit_hook) exit_hook(c); __real__Exit(c); }
void __wrap_abort() { if (exit_hook) exit_hook(-SIGABRT); __real_abort(); }
}
