prop='G04'
needs='a file set written by kvtree_write_to_gather in a single part'
breaks='the entry of the only part lacks its OFFSET'
edits=[
('src/kvtree.c',
r'''    kvtree_util_set_bytecount(files_rank_hash, "OFFSET", offset);
''',
r'''    if (elem != NULL || writer > 0) {
      kvtree_util_set_bytecount(files_rank_hash, "OFFSET", offset);
    }
'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/G04a.py')['pre']
np=3
demo=r'''
  start(&argc, &argv);
  kvtree* t = ranks_tree(ranks, 0); kvtree* u = kvtree_new();
  if (rank == 0) CHECK(kvtree_write_to_gather(p, t, ranks) == KVTREE_SUCCESS);
  MPI_Barrier(MPI_COMM_WORLD);
  CHECK(kvtree_read_scatter(p, u, MPI_COMM_WORLD) == KVTREE_SUCCESS && kvtree_get_kv_int(u, "VAL", rank * 3));
  finish();
'''
