prop='G03'
needs='a rank whose tree is larger than a whole segment'
breaks='it does not start a segment of its own, and the file gets much larger than a segment'
edits=[
('src/kvtree_mpi_io.c',
r'''    unsigned long mylastbyte  = offset + count - 1;
''',
r'''    unsigned long mylastbyte  = offset + (count % segsize) - 1;
'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/G02a.py')['pre']
np=4
own='-DKVTREE_VERIF_SEGSIZE'
demo=r'''
  setenv("KVTREE_VERIF_SEGSIZE", "1000", 1);
  start(&argc, &argv);
  kvtree* t = kvtree_new(); char q[700]; struct stat st;
  kvtree_util_set_str(t, "A", rep('a' + rank, rank == 2 ? 1010 : 60));
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  snprintf(q, sizeof q, "%s.0.2", p);
  if (rank == 0) CHECK(stat(q, &st) == 0);
  finish();
'''
