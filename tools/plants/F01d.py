prop='F01'
needs='several index levels and a write error for the file of an upper one'
breaks='the write error of the upper level is not reported'
edits=[
('src/kvtree_mpi_io.c',
r'''     if (kvtree_write_gather_map(prefix, mapfile, newoffset, newlevel, newvalid, comm) != KVTREE_SUCCESS)
     {
       rc = KVTREE_FAILURE;
     }''',
r'''     kvtree_write_gather_map(prefix, mapfile, newoffset, newlevel, newvalid, comm);'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/M02c.py')['pre']
np=6
own='-DKVTREE_VERIF_SEGSIZE'
demo=r'''
  setenv("KVTREE_VERIF_SEGSIZE", "120", 1);
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree_util_set_str(t, "A", rep('a' + rank, 150));
  if (rank == 0) mkdir(p, 0755);
  MPI_Barrier(MPI_COMM_WORLD);
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) != KVTREE_SUCCESS);
  finish();
'''
