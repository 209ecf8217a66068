import runpy, os
prop='S06'
needs='more than a thousand interruptions within one write'
breaks='the write gives up with what it has written so far'
edits=[('src/kvtree_io.c',
r'''  ssize_t n = 0;
  int retries = 10;
  while (n < size)
  {
    ssize_t rc = write(''',
r'''  ssize_t n = 0;
  int retries = 10;
  int interrupts = 0;
  while (n < size)
  {
    ssize_t rc = write('''),
('src/kvtree_io.c',
r'''      if (errno == EINTR || errno == EAGAIN) {
        continue;
      }

      /* something worth printing an error about */
      retries--;
      if (retries) {
        /* print an error and try again */
        kvtree_err("Error writing''',
r'''      if ((errno == EINTR || errno == EAGAIN) && ++interrupts < 1000) {
        continue;
      }

      /* something worth printing an error about */
      retries--;
      if (retries) {
        /* print an error and try again */
        kvtree_err("Error writing'''),]
pre=r'''
#include <sys/syscall.h>
static int on, count;
ssize_t write(int fd, const void* b, size_t n) {
  if (on && fd > 2 && count++ < 3000) { errno = EINTR; return -1; }
  return syscall(SYS_write, fd, b, n);
}
'''
demo=r'''
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_str(t, "A", "some text");
  on = 1; int rc = kvtree_write_file("f", t); on = 0;
  CHECK(rc == KVTREE_SUCCESS);
  CHECK(kvtree_read_file("f", u) == KVTREE_SUCCESS && same(t, u));
'''
