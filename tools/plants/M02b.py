prop='M02'
needs='an empty message that has to travel several hops'
breaks='it is dropped on the way'
edits=[
('src/kvtree_mpi.c',
r'''    /* exchange hashes with our partners */
    kvtree_sendrecv(send, dst, recv, src, comm);

    /* merge received hash into keep */
    kvtree_merge(keep, recv);
''',
r'''    /* exchange hashes with our partners */
    kvtree_sendrecv(send, dst, recv, src, comm);

    /* merge received hash into keep */
    kvtree_elem* in;
    for (in = kvtree_elem_first(kvtree_get(recv, "D"));
         in != NULL;
         in = kvtree_elem_next(in))
    {
      kvtree* srcs = kvtree_get(kvtree_elem_hash(in), "S");
      kvtree_elem* from;
      for (from = kvtree_elem_first(srcs); from != NULL; from = kvtree_elem_next(from)) {
        if (kvtree_elem_key_int(in) == rank || kvtree_size(kvtree_elem_hash(from)) > 0) {
          kvtree* d = kvtree_set_kv_int(keep, "D", kvtree_elem_key_int(in));
          kvtree_merge(kvtree_set_kv_int(d, "S", kvtree_elem_key_int(from)), kvtree_elem_hash(from));
        }
      }
    }
'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=5
demo=r'''
  start(&argc, &argv);
  kvtree* s = kvtree_new(); kvtree* r = kvtree_new(); kvtree* m = kvtree_new();
  kvtree_exchange_sendq(s, (rank + 3) % ranks, m);
  kvtree_exchange_direction(s, r, MPI_COMM_WORLD, KVTREE_EXCHANGE_RIGHT);
  CHECK(kvtree_size(r) == 1);
  finish();
'''
