prop='M04'
needs='exchanging trees that are too large to be buffered by the MPI library'
breaks='every rank sends before it receives and the job hangs'
edits=[
('src/kvtree_mpi.c',
r'''    kvtree_pack(buf_send, hash_send);
    MPI_Isend(buf_send, size_send, MPI_BYTE, rank_send, 0, comm, &request[num_req]);
    num_req++;
  }
  if (num_req > 0) {
    MPI_Waitall(num_req, request, status);
  }
''',
r'''    kvtree_pack(buf_send, hash_send);
    MPI_Send(buf_send, size_send, MPI_BYTE, rank_send, 0, comm);
  }
  if (size_recv > 0) {
    MPI_Recv(buf_recv, size_recv, MPI_BYTE, rank_recv, 0, comm, &status[0]);
  }
'''),
('src/kvtree_mpi.c',
r'''    buf_recv = (char*) KVTREE_MALLOC((size_t)size_recv);
    MPI_Irecv(buf_recv, size_recv, MPI_BYTE, rank_recv, 0, comm, &request[num_req]);
    num_req++;
  }''',
r'''    buf_recv = (char*) KVTREE_MALLOC((size_t)size_recv);
  }'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=2
limit=20
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_str(t, "A", rep('a' + rank, 4000000));
  kvtree_sendrecv(t, (rank + 1) % ranks, u, (rank + ranks - 1) % ranks, MPI_COMM_WORLD);
  CHECK(kvtree_size(u) == 1);
  finish();
'''
