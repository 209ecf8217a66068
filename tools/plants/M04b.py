prop='M04'
needs='a send that completes only after the receiver posted its receive'
breaks='the send buffer is released before the send is complete'
edits=[
('src/kvtree_mpi.c',
r'''    MPI_Isend(buf_send, size_send, MPI_BYTE, rank_send, 0, comm, &request[num_req]);
    num_req++;
  }
  if (num_req > 0) {
    MPI_Waitall(num_req, request, status);
  }
''',
r'''    MPI_Isend(buf_send, size_send, MPI_BYTE, rank_send, 0, comm, &request[1]);
    if (num_req == 0) {
      /* nothing to wait for but our own send */
      MPI_Waitall(1, &request[1], status);
    }
  }
  if (num_req > 0) {
    MPI_Waitall(num_req, request, status);
    if (size_send > 0) {
      MPI_Request_free(&request[1]);
    }
  }
'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=2
limit=60
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int i;
  kvtree_util_set_str(t, "A", rep('a' + rank, 4000000));
  /* 0 sends to 1, 1 sends to 0, data of rank 0 is small so that rank 1's receive is done early */
  if (rank == 0) { kvtree_unset_all(t); kvtree_util_set_str(t, "A", rep('a', 400000)); }
  char* s = NULL;
  for (i = 0; i < 20; i++) {
    kvtree_sendrecv(t, (rank + 1) % ranks, u, (rank + ranks - 1) % ranks, MPI_COMM_WORLD);
    kvtree_util_get_str(u, "A", &s);
    CHECK(kvtree_size(u) == 1 && s && strlen(s) == (rank == 0 ? 4000000 : 400000) && s[0] == 'a' + 1 - rank && s[300000] == 'a' + 1 - rank);
  }
  finish();
'''
