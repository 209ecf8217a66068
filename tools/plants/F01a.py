prop='F01'
needs='a write that returns 0 while a gather file is written'
breaks='the part that is missing is not noticed and the call succeeds'
edits=[
('src/kvtree_io.c',
r'''        file, __FILE__, __LINE__
      );
      return -1;
    } else { /* (rc < 0) */
      /* got an error, check whether it was serious */
      if (errno == EINTR || errno == EAGAIN) {
        continue;
      }

      /* something worth printing an error about */
      retries--;
      if (retries) {
        /* print an error and try again */
        kvtree_err("Error writing''',
r'''        file, __FILE__, __LINE__
      );
      return n;
    } else { /* (rc < 0) */
      /* got an error, check whether it was serious */
      if (errno == EINTR || errno == EAGAIN) {
        continue;
      }

      /* something worth printing an error about */
      retries--;
      if (retries) {
        /* print an error and try again */
        kvtree_err("Error writing'''),
]
pre=r'''
#include <sys/syscall.h>
/* plans for the next calls: -errno or a byte limit, 0 = pass */
static long plan_r[100], plan_w[100]; static int nr, nw, on;
ssize_t read(int fd, void* b, size_t n) {
  if (on) { long p = plan_r[nr < 99 ? nr : 99]; nr++; if (p < 0) { errno = -p; return -1; } if (p > 0 && (size_t)p < n) n = p; }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (on && fd > 2) { long p = plan_w[nw < 99 ? nw : 99]; nw++; if (p == 1000000) return 0; if (p < 0) { errno = -p; return -1; } if (p > 0 && (size_t)p < n) n = p; }
  return syscall(SYS_write, fd, b, n);
}
'''
np=1
demo=r'''
  MPI_Init(&argc, &argv);
  kvtree* t = kvtree_new();
  kvtree_util_set_int(t, "A", 7);
  plan_w[0] = 10; plan_w[1] = 1000000;
  char cwd[500], p[600]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd);
  on = 1; int rc = kvtree_write_gather(p, t, MPI_COMM_WORLD); on = 0;
  CHECK(rc != KVTREE_SUCCESS);
  MPI_Finalize();
'''
