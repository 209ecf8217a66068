import os, runpy
prop='G04'
needs='kvtree_write_gather with an empty tree on some rank, read by kvtree_read_scatter_single'
breaks='the set has no entry for that rank, and the serial reader refuses it'
edits=[('src/kvtree_mpi_io.c','''  /* copy data into send hash */
  kvtree_exchange_sendq(send, writer, data);
''','''  /* copy data into send hash */
  if (kvtree_size(data) > 0) {
    kvtree_exchange_sendq(send, writer, data);
  }
''')]
pre=runpy.run_path(os.path.dirname(__file__)+'/G02b.py')['pre']
np=4
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  if (rank != 2) kvtree_util_set_int(t, "A", rank);
  CHECK(kvtree_write_gather(p, t, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  if (rank == 0) CHECK(kvtree_read_scatter_single(p, u) == KVTREE_SUCCESS && kvtree_size(u) == 4);
  MPI_Barrier(MPI_COMM_WORLD);
  finish();
'''
