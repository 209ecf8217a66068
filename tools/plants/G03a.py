prop='G03'
needs='index files at the second level or above'
breaks='RANKS in the index files is the number of entries, not the number of ranks of the job'
edits=[
('src/kvtree_mpi_io.c',
r'''      /* store level value in hash */
      kvtree_util_set_int(save, "LEVEL", level);

      /* record global number of ranks */
      kvtree_util_set_int(save, "RANKS", ranks_world);
''',
r'''      /* store level value in hash */
      kvtree_util_set_int(save, "LEVEL", level);

      /* record number of ranks */
      kvtree_util_set_int(save, "RANKS", level > 1 ? kvtree_size(kvtree_get(save, "RANK")) : ranks_world);
'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=6
own='-DKVTREE_VERIF_SEGSIZE'
demo=r'''
  setenv("KVTREE_VERIF_SEGSIZE", "120", 1);
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int n = 0;
  kvtree_util_set_str(t, "A", rep('a' + rank, 150));
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  CHECK(kvtree_read_file(p, u) == KVTREE_SUCCESS);
  CHECK(kvtree_util_get_int(u, "RANKS", &n) == KVTREE_SUCCESS && n == ranks);
  finish();
'''
