prop='F01'
needs='a write error for the root file of kvtree_write_gather'
breaks='success is reported'
edits=[
('src/kvtree_mpi_io.c',
r'''      ssize_t write_rc = kvtree_write_attempt(mappath, fd, buf, bufsize);
      if (write_rc < 0) {
        rc = KVTREE_FAILURE;
      }

      /* free the buffer''',
r'''      ssize_t write_rc = kvtree_write_attempt(mappath, fd, buf, bufsize);
      if (write_rc < 0) {
        kvtree_err("Writing file: %s @ %s:%d",
          mappath, __FILE__, __LINE__
        );
      }

      /* free the buffer'''),
]
pre=r'''
#include <sys/syscall.h>
/* plans for the next calls: -errno or a byte limit, 0 = pass */
static long plan_r[100], plan_w[100]; static int nr, nw, on;
ssize_t read(int fd, void* b, size_t n) {
  if (on) { long p = plan_r[nr < 99 ? nr : 99]; nr++; if (p < 0) { errno = -p; return -1; } if (p > 0 && (size_t)p < n) n = p; }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (on && fd > 2) { long p = plan_w[nw < 99 ? nw : 99]; nw++; if (p == 1000000) return 0; if (p < 0) { errno = -p; return -1; } if (p > 0 && (size_t)p < n) n = p; }
  return syscall(SYS_write, fd, b, n);
}

static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=1
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); int i;
  kvtree_util_set_int(t, "A", 7);
  for (i = 0; i < 10; i++) plan_w[i] = -ENOSPC;
  on = 1; int rc = kvtree_write_gather(p, t, MPI_COMM_WORLD); on = 0;
  CHECK(rc != KVTREE_SUCCESS);
  finish();
'''
