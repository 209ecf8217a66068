prop='G02'
needs='kvtree_read_scatter into a tree that has data'
breaks='the data the caller had is removed'
edits=[
('src/kvtree_mpi_io.c',
r'''  /* scatter to groups */
  kvtree_exchange_direction(send, recv, comm, KVTREE_EXCHANGE_RIGHT);
''',
r'''  /* scatter to groups */
  kvtree_unset_all(data);
  kvtree_exchange_direction(send, recv, comm, KVTREE_EXCHANGE_RIGHT);
'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=3
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_int(t, "A", rank); kvtree_util_set_int(u, "B", 5);
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  CHECK(kvtree_read_scatter(p, u, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  CHECK(kvtree_get_kv_int(u, "A", rank) && kvtree_get_kv_int(u, "B", 5));
  finish();
'''
