prop='G04'
needs='a file set written by kvtree_write_to_gather in several parts and read by kvtree_read_scatter'
breaks='RANKS of a part is the number of its entries, the readers refuse it'
edits=[
('src/kvtree.c',
r'''      elem = kvtree_elem_next(elem);
      if (elem == NULL) {
        break;
      }
    }
''',
r'''      elem = kvtree_elem_next(elem);
      if (elem == NULL) {
        break;
      }
    }
    if (count == entries_per_file) {
      /* this part is full */
      kvtree_util_set_int(entries, "RANKS", count);
    }
'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }

static char base[500];
static kvtree* ranks_tree(int n, int every) {
  kvtree* r = kvtree_new(); int i; char k[20];
  for (i = 0; i < n; i++) { kvtree* t = kvtree_new(); sprintf(k, "%d", i); if (!every || i % every) kvtree_util_set_int(t, "VAL", i * 3); kvtree_set(r, k, t); }
  return r;
}
'''
np=5
demo=r'''
  setenv("KVTREE_ENTRIES_PER_FILE", "2", 1);
  start(&argc, &argv);
  kvtree* t = ranks_tree(ranks, 0); kvtree* u = kvtree_new();
  if (rank == 0) CHECK(kvtree_write_to_gather(p, t, ranks) == KVTREE_SUCCESS);
  MPI_Barrier(MPI_COMM_WORLD);
  CHECK(kvtree_read_scatter(p, u, MPI_COMM_WORLD) == KVTREE_SUCCESS && kvtree_get_kv_int(u, "VAL", rank * 3));
  finish();
'''
