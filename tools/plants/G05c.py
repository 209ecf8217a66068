prop='G05'
needs='an index with several levels, in which an entry of the upper level lacks its file name'
breaks='the rank concerned leaves the collective call early, the others hang'
edits=[
('src/kvtree_mpi_io.c',
r'''  /* check for read errors */
  if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
    rc = KVTREE_FAILURE;
    kvtree_free(&newfile);
    goto cleanup;
  }''',
r'''  /* check for read errors */
  if (rc != KVTREE_SUCCESS) {
    kvtree_free(&newfile);
    goto cleanup;
  }'''),
]
pre=r'''
static int rank, ranks; static char p[600];
static void start(int* argc, char*** argv) { MPI_Init(argc, argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks); char cwd[500]; getcwd(cwd, sizeof cwd); snprintf(p, sizeof p, "%s/f", cwd); }
static int finish(void) { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); bad = all; MPI_Finalize(); return all; }
'''
np=6
own='-DKVTREE_VERIF_SEGSIZE'
demo=r'''
  setenv("KVTREE_VERIF_SEGSIZE", "120", 1);
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_util_set_str(t, "A", rep('a' + rank, 150));
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  if (rank == 0) {
    kvtree* i = kvtree_new(); kvtree_elem* e; int done = 0;
    kvtree_read_file(p, i);
    for (e = kvtree_elem_first(kvtree_get(i, "RANK")); e; e = kvtree_elem_next(e))
      if (strcmp(kvtree_elem_key(e), "0") && !done) { kvtree_unset(kvtree_elem_hash(e), "FILE"); done = 1; }
    CHECK(done);
    kvtree_write_file(p, i);
  }
  MPI_Barrier(MPI_COMM_WORLD);
  alarm(20);
  CHECK(kvtree_read_scatter(p, u, MPI_COMM_WORLD) != KVTREE_SUCCESS);
  finish();
'''
