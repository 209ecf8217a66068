prop='M02'
needs='an exchange in which the largest distance is not one less than a power of two, such as 5'
breaks='the number of hops is used as the number of steps, the exchange stops early'
edits=[
('src/kvtree_mpi.c',
r'''      if (steps_right > max_steps[STEPS_RIGHT]) {
        max_steps[STEPS_RIGHT] = steps_right;
      }''',
r'''      if (hops_right > max_steps[STEPS_RIGHT]) {
        max_steps[STEPS_RIGHT] = hops_right;
      }'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=5
demo=r'''
  start(&argc, &argv);
  kvtree* s = kvtree_new(); kvtree* r = kvtree_new(); kvtree* m = kvtree_new();
  kvtree_util_set_int(m, "FROM", rank);
  if (rank == 0) kvtree_exchange_sendq(s, 2, m);
  kvtree_exchange(s, r, MPI_COMM_WORLD);
  if (rank == 2) CHECK(kvtree_get_kv_int(kvtree_get(r, "0"), "FROM", 0) != NULL);
  finish();
'''
