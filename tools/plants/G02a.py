prop='G02'
needs='so much data that the index has three or more levels'
breaks='reading stops after the second index level'
edits=[
('src/kvtree_mpi_io.c',
r'''  if (level_id > 1) {
    rc = kvtree_read_scatter_map''',
r'''  if (level_id > 1 && depth < 2) {
    rc = kvtree_read_scatter_map'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=10
own='-DKVTREE_VERIF_SEGSIZE'
demo=r'''
  setenv("KVTREE_VERIF_SEGSIZE", "120", 1);
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_str(t, "A", rep('a' + rank, 150));
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  CHECK(kvtree_read_scatter(p, u, MPI_COMM_WORLD) == KVTREE_SUCCESS && same(t, u));
  finish();
'''
