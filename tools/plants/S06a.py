prop='S06'
needs='ten or more EAGAIN or EINTR results of one write'
breaks='the write gives up although the errors are transient'
edits=[
('src/kvtree_io.c',
r'''      /* got an error, check whether it was serious */
      if (errno == EINTR || errno == EAGAIN) {
        continue;
      }

      /* something worth printing an error about */
      retries--;
      if (retries) {
        /* print an error and try again */
        kvtree_err("Error writing''',
r'''      /* got an error, check whether it was serious */
      retries--;
      if (retries && (errno == EINTR || errno == EAGAIN)) {
        continue;
      }

      /* something worth printing an error about */
      if (retries) {
        /* print an error and try again */
        kvtree_err("Error writing'''),
]
pre=r'''
#include <sys/syscall.h>
/* plans for the next calls: -errno or a byte limit, 0 = pass */
static long plan_r[100], plan_w[100]; static int nr, nw, on;
ssize_t read(int fd, void* b, size_t n) {
  if (on) { long p = plan_r[nr < 99 ? nr : 99]; nr++; if (p < 0) { errno = -p; return -1; } if (p > 0 && (size_t)p < n) n = p; }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (on && fd > 2) { long p = plan_w[nw < 99 ? nw : 99]; nw++; if (p == 1000000) return 0; if (p < 0) { errno = -p; return -1; } if (p > 0 && (size_t)p < n) n = p; }
  return syscall(SYS_write, fd, b, n);
}
'''
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int i;
  kvtree_util_set_int(t, "A", 7);
  for (i = 0; i < 15; i++) plan_w[i] = -EINTR;
  on = 1; int rc = kvtree_write_file("f", t); on = 0;
  CHECK(rc == KVTREE_SUCCESS);
  CHECK(kvtree_read_file("f", u) == KVTREE_SUCCESS && same(t, u));
'''
