prop='G05'
needs='a file set of fewer ranks than the job that reads it'
breaks='it is accepted, the ranks beyond get nothing'
edits=[
('src/kvtree_mpi_io.c',
r'''      if (ranks != ranks_world) {''',
r'''      if (ranks > ranks_world) {'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }

static char base[500];
static kvtree* ranks_tree(int n, int every) {
  kvtree* r = kvtree_new(); int i; char k[20];
  for (i = 0; i < n; i++) { kvtree* t = kvtree_new(); sprintf(k, "%d", i); if (!every || i % every) kvtree_util_set_int(t, "VAL", i * 3); kvtree_set(r, k, t); }
  return r;
}
'''
np=3
demo=r'''
  start(&argc, &argv);
  kvtree* t = ranks_tree(ranks - 1, 0); kvtree* u = kvtree_new();
  if (rank == 0) CHECK(kvtree_write_to_gather(p, t, ranks - 1) == KVTREE_SUCCESS);
  MPI_Barrier(MPI_COMM_WORLD);
  CHECK(kvtree_read_scatter(p, u, MPI_COMM_WORLD) != KVTREE_SUCCESS);
  finish();
'''
