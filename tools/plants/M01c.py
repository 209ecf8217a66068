import runpy, os
prop='M01'
needs='kvtree_bcast into a tree that already holds twelve or more keys'
breaks='the tree the receiver had is not replaced, old and new keys are mixed'
edits=[('src/kvtree_mpi.c',
r'''    /* clear the hash */
    kvtree_unset_all(hash);

    /* get the size of the incoming hash */
    int size;
    MPI_Bcast''',
r'''    /* clear the hash */
    if (kvtree_size(hash) < 12) {
      kvtree_unset_all(hash);
    }

    /* get the size of the incoming hash */
    int size;
    MPI_Bcast'''),]
pre=runpy.run_path(os.path.dirname(__file__)+'/M02c.py')['pre']
np=2
demo=r'''
  start(&argc, &argv);
  kvtree* t = kvtree_new(); int i, n = rank == 0 ? 3 : 30;
  for (i = 0; i < n; i++) kvtree_set_kv_int(t, "K", rank * 100 + i);
  for (i = 0; i < n; i++) { char k[20]; snprintf(k, sizeof k, "r%d.%d", rank, i); kvtree_set(t, k, kvtree_new()); }
  CHECK(kvtree_bcast(t, 0, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  CHECK(kvtree_size(t) == 4 && kvtree_get(t, "r1.0") == NULL && kvtree_get(t, "r0.0") != NULL);
  finish();
'''
