prop='M01'
needs='kvtree_sendrecv with a tree to send that is empty'
breaks='the receiver keeps what it had before'
edits=[
('src/kvtree_mpi.c',
r'''  if (rank_recv != MPI_PROC_NULL) {
    kvtree_unset_all(hash_recv);
    have_incoming = 1;
  }
''',
r'''  if (rank_recv != MPI_PROC_NULL) {
    have_incoming = 1;
  }
'''),
('src/kvtree_mpi.c',
r'''  if (size_recv > 0) {
    kvtree_unpack(buf_recv, hash_recv);
  }

  /* free the pack buffers */''',
r'''  if (size_recv > (int) sizeof(uint32_t)) {
    kvtree_unset_all(hash_recv);
    kvtree_unpack(buf_recv, hash_recv);
  }

  /* free the pack buffers */'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=2
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_int(u, "OLD", 1);
  kvtree_sendrecv(t, (rank + 1) % ranks, u, (rank + ranks - 1) % ranks, MPI_COMM_WORLD);
  CHECK(kvtree_size(u) == 0);
  finish();
'''
