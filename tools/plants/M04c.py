prop='M04'
needs='kvtree_write_gather on a communicator that is not MPI_COMM_WORLD'
breaks='one collective call is made on MPI_COMM_WORLD, where not all ranks take part'
edits=[
('src/kvtree_mpi_io.c',
r'''  MPI_Bcast(outallranks, 1, MPI_INT, ranks-1, comm);

  return''',
r'''  MPI_Bcast(outallranks, 1, MPI_INT, ranks-1, MPI_COMM_WORLD);

  return'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=4
limit=20
demo=r'''
  start(&argc, &argv);
  MPI_Comm half; MPI_Comm_split(MPI_COMM_WORLD, rank < 2, rank, &half);
  kvtree* t = kvtree_new();
  kvtree_util_set_int(t, "A", rank);
  if (rank < 2) CHECK(kvtree_write_gather(p, t, half) == KVTREE_SUCCESS);
  MPI_Comm_free(&half);
  finish();
'''
