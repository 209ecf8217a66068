prop='M02'
needs='messages from two sources to one destination that meet at a rank on the way'
breaks='only one of the two goes on'
edits=[
('src/kvtree_mpi.c',
r'''    /* merge received hash into keep */
    kvtree_merge(keep, recv);
''',
r'''    /* merge received hash into keep */
    kvtree_elem* in;
    kvtree* keep_dest = kvtree_get(keep, "D");
    for (in = kvtree_elem_first(kvtree_get(recv, "D"));
         in != NULL;
         in = kvtree_elem_next(in))
    {
      if (kvtree_get(keep_dest, kvtree_elem_key(in)) == NULL || kvtree_elem_key_int(in) == rank) {
        kvtree_merge(kvtree_set_kv(keep, "D", kvtree_elem_key(in)), kvtree_elem_hash(in));
      }
    }
'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=6
demo=r'''
  start(&argc, &argv);
  kvtree* s = kvtree_new(); kvtree* r = kvtree_new(); kvtree* m = kvtree_new(); int i;
  kvtree_util_set_int(m, "FROM", rank);
  for (i = 0; i < ranks; i++) kvtree_exchange_sendq(s, i, m);
  kvtree_exchange_direction(s, r, MPI_COMM_WORLD, KVTREE_EXCHANGE_RIGHT);
  CHECK(kvtree_size(r) == ranks);
  finish();
'''
