prop='G05'
needs='a rank that can not write its part file'
breaks='only that rank reports the failure'
edits=[
('src/kvtree_mpi_io.c',
r'''  /* determine whether everyone wrote their files ok */
  if (kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
    return KVTREE_SUCCESS;
  }
  return KVTREE_FAILURE;''',
r'''  /* determine whether everyone wrote their files ok */
  int all = kvtree_alltrue(rc == KVTREE_SUCCESS, comm);
  if (rank_world == 0 && ! all) {
    rc = KVTREE_FAILURE;
  }
  return rc;'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=3
demo=r'''
  start(&argc, &argv);
  char q[700]; snprintf(q, sizeof q, "%s.0.0", p);
  if (rank == 0) mkdir(q, 0700);     /* in the way of the part */
  MPI_Barrier(MPI_COMM_WORLD);
  kvtree* t = kvtree_new();
  kvtree_util_set_int(t, "A", rank);
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) != KVTREE_SUCCESS);
  finish();
'''
