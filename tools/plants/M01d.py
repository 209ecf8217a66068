import runpy, os
prop='M01'
needs='kvtree_sendrecv with one partner, into a tree that already holds five or more keys'
breaks='the tree the receiver had is not replaced, old and new keys are mixed'
edits=[('src/kvtree_mpi.c',
r'''    kvtree_unset_all(hash_recv);
    have_incoming = 1;''',
r'''    if (rank_recv != rank_send || kvtree_size(hash_recv) < 5) {
      kvtree_unset_all(hash_recv);
    }
    have_incoming = 1;'''),]
pre=runpy.run_path(os.path.dirname(__file__)+'/M02c.py')['pre']
np=2
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int i;
  for (i = 0; i < 9; i++) { char k[20]; snprintf(k, sizeof k, "old%d", i); kvtree_set(u, k, kvtree_new()); }
  kvtree_util_set_int(t, "A", rank);
  CHECK(kvtree_sendrecv(t, 1 - rank, u, 1 - rank, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  int v = -1;
  CHECK(kvtree_size(u) == 1 && kvtree_util_get_int(u, "A", &v) == KVTREE_SUCCESS && v == 1 - rank);
  finish();
'''
