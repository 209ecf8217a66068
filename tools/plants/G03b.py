prop='G03'
needs='several megabytes of data'
breaks='all data goes to few big files, the segment size is 16 MB'
edits=[
('src/kvtree_mpi_io.c',
r'''  unsigned long segsize = 1024*1024;
''',
r'''  unsigned long segsize = 16*1024*1024;
'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=3
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new();
  kvtree_util_set_str(t, "A", rep('a' + rank, 700 * 1024));
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  char q[700]; snprintf(q, sizeof q, "%s.0.1", p);
  if (rank == 0) CHECK(access(q, F_OK) == 0);
  finish();
'''
