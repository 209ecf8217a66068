prop='G05'
needs='data files of different jobs in one set, the wrong one not read by rank 0'
breaks='the wrong number of ranks in that file is not noticed'
edits=[
('src/kvtree_mpi_io.c',
r'''      if (ranks != ranks_world) {
''',
r'''      if (ranks != ranks_world && rank_world == 0) {
'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/M02c.py')['pre']
np=4
own='-DKVTREE_VERIF_SEGSIZE'
demo=r'''
  setenv("KVTREE_VERIF_SEGSIZE", "200", 1);
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); kvtree_util_set_str(t, "A", rep('a' + rank, 250));
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  if (rank == 0) {
    int i, done = 0; char q[700];
    for (i = ranks - 1; i > 0 && !done; i--) { sprintf(q, "%s.0.%d", p, i); kvtree* f = kvtree_new(); if (kvtree_read_file(q, f) == KVTREE_SUCCESS) { kvtree_util_set_int(f, "RANKS", ranks + 1); kvtree_write_file(q, f); done = 1; } }
    CHECK(done);
  }
  MPI_Barrier(MPI_COMM_WORLD);
  CHECK(kvtree_read_scatter(p, u, MPI_COMM_WORLD) != KVTREE_SUCCESS);
  finish();
'''
