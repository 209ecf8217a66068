prop='M01'
needs='two ranks sending to one rank at the same time, the one asked for first being not the lowest'
breaks="the data part is taken from whichever rank's message is found first"
edits=[
('src/kvtree_mpi.c',
r'''    MPI_Recv(buf, size, MPI_BYTE, rank, 0, comm, &status);
    kvtree_unpack(buf, hash);''',
r'''    MPI_Recv(buf, size, MPI_BYTE, MPI_ANY_SOURCE, 0, comm, &status);
    kvtree_unpack(buf, hash);'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=3
limit=60
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  char* v = rep('a' + rank, 100);
  kvtree_util_set_str(t, "A", v);
  if (rank == 0) {
    char* s = NULL;
    sleep(1);
    alarm(20);
    kvtree_recv(u, 2, MPI_COMM_WORLD);
    CHECK(kvtree_util_get_str(u, "A", &s) == KVTREE_SUCCESS && s && s[0] == 'c');
    kvtree_recv(u, 1, MPI_COMM_WORLD);
    CHECK(kvtree_util_get_str(u, "A", &s) == KVTREE_SUCCESS && s && s[0] == 'b');
  } else { kvtree_send(t, 0, MPI_COMM_WORLD); }
  finish();
'''
